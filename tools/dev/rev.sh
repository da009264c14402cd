# rev.sh ID CASES HASH... : revert each fix alone, run check, print exit code
id=$1; n=$2; shift 2
[ -d /tmp/revwt ] || git clone -q /tmp/wt /tmp/revwt
git -C /tmp/revwt fetch -q /tmp/wt HEAD && git -C /tmp/revwt checkout -q FETCH_HEAD
for h in "$@"; do
 cd /tmp/revwt; git reset -q --hard FETCH_HEAD
 if ! git revert -n $h >/dev/null 2>&1; then echo "$h CONFLICT $(git log -1 --format=%s $h)"; git revert --abort 2>/dev/null; git reset -q --hard FETCH_HEAD; continue; fi
 cd /verif; VERIF_REPO=/tmp/revwt VERIF_BUILD=/tmp/revb PBT_CASES=$n python3 check.py run $id >/tmp/rev.out 2>&1; echo "$h rc=$? $(git -C /tmp/revwt log -1 --format=%s $h) :: $(grep -v '^[0-9]*$' /tmp/rev.out | sed -n 2p | cut -c1-120)"
done
