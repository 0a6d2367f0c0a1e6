#!/bin/bash
# plant.sh ID PROP : current diff in /repo becomes seeded/ID
id=$1; p=$2; d=/verif/seeded/$id; mkdir -p $d
cd /repo; git diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo NO DIFF; exit 1; }
[ -f $d/demo.sh ] || cat > $d/demo.sh <<'D'
#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH=/opt/vp/support:"$PWD" PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=-1 TF_ENABLE_ONEDNN_OPTS=0
exec /opt/venv/bin/python -W ignore "$D/demo.py"
D
[ -n "$NOTEST" ] || /tmp/w/tests.sh
bash $d/demo.sh >/tmp/w/demo.out 2>&1; echo "demo with bug: $? (want nonzero)"; tail -1 /tmp/w/demo.out | cut -c1-200
(cd /verif; ZSV_EVIDENCE=/tmp/w/ev bin/check $p > /tmp/w/plant.out 2>&1; echo "check rc=$?"; grep "VIOLATION\|^$p:" /tmp/w/plant.out; grep -A1 "failed obl" /tmp/w/plant.out | head -4 | cut -c1-300)
git checkout -- . ; bash $d/demo.sh >/tmp/w/demo.out 2>&1; echo "demo clean: $?"
git status --short
