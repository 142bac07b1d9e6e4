#!/bin/bash
# every registered proof unit, in parallel over properties; prints the ones not ok
cd "$(dirname "$0")/.."
ls contracts/*.py >/dev/null
for f in hpack_int.units_c01 hpack_int.units_c02 hpack_huff.units_c03 hpack_str.units_c04 hpack_table.units_c05 hpack_block.units_c06 hpack_block.units_c07 frames.units_c08 conn.units_c11 conn.units_frame conn.units_request conn.units_io conn.units_loop "$@"; do
  echo "== $f: $(python3-vt tools/run.py $f '' 2>&1 | grep -v ' ok ' | tail -5)"
done
