. /opt/vp/env.sh
cd /verif/analyzer
KINDS=${KINDS:-invertif continue2nest nest2continue range2index condtemp splitand swapcmp demorgan switch2if rettemp argtemp lit2assign reverselit noop helper helperfn pred}
for k in $KINDS; do
 ( ulimit -v 8000000; mkdir -p /tmp/rf; AN_REPO=/repo /tmp/mut refactor $k /tmp/rf/$k >/tmp/rf/$k.n; AN_OVERLAY=/tmp/rf/$k/overlay.json /tmp/an rel > /tmp/rf/$k/out.txt 2>&1; echo "$(cat /tmp/rf/$k.n): $(grep -a -E '^(DIFFS|LOAD)' /tmp/rf/$k/out.txt | cut -c1-300)" ) &
done; wait
