PYTHONHASHSEED=1 timeout ${T:-200} python3-vt /tmp/v.py "$@" 2>&1 | tail -${N:-30} | cut -c1-${W:-400}
