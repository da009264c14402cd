cd /verif
export VERIF_REPO=/tmp/wt VERIF_BUILD=/tmp/wtb
PBT_CASES=${2:-40000} python3 check.py run $1 2>&1 | grep -v '^[0-9]*$' | cut -c1-300 | head -${3:-12}
