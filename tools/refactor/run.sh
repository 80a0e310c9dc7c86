# run.sh dir ids...
d=$1; shift
for i in "$@"; do
 s=$(date +%s); timeout 900 python3 check.py $i --repo $d >/tmp/rf/out.$i 2>&1; rc=$?
 echo "$(basename $d) $i rc=$rc $(( $(date +%s)-s ))s $([ $rc != 0 ] && tail -3 /tmp/rf/out.$i | cut -c1-300)"
done
