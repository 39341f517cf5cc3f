cd /verif
for c in "$@"; do timeout 400 python3-vt run.py $c quick -v > /tmp/o.$c 2>&1; echo; grep -v "^  h_.*s  $" /tmp/o.$c | tail -25 | cut -c1-900; grep -oE "^ .* [0-9.]+s  $" /tmp/o.$c | awk '{print $NF, $0}' | sort -n | tail -2|cut -c1-150;  done
