# rewriter torture test
. /opt/vp/env.sh
set -e
rm -rf /tmp/tort; mkdir /tmp/tort; cp -a /repo /tmp/tort/r; cd /tmp/tort/r
cp /verif/tools/torture/torture.go p2p/torture.go
cat > p2p/torture_test.go <<'X'
package p2p
import ("testing";"os")
func TestT(t *testing.T) { os.WriteFile("/tmp/tort/native", []byte(Torture()), 0644) }
X
go test -count=1 -run TestT ./p2p
rm p2p/torture_test.go
python3 - <<'X'
p='p2p/sync.go'; s=open(p).read()
s=s.replace("func (s *Syncer) Run() {\n","func (s *Syncer) Run() {\n\tif TortureOut != nil {\n\t\tTortureOut(Torture())\n\t}\n")
s+="\nvar TortureOut = func(s string) { println(s) }\n"
open(p,'w').write(s)
X
bash /tmp/b.sh /tmp/tort/r /tmp/tort/ov
for s in 1 2 3 4 5 6 7 8; do /tmp/tort/ov.h one -prop C03 -seed $s -n 1 > /tmp/tort/o.$s 2>&1 || true; done
cat /tmp/tort/native; for s in 1 2 3 4 5 6 7 8; do head -$(wc -l < /tmp/tort/native) /tmp/tort/o.$s | diff - /tmp/tort/native > /tmp/tort/d && echo same || head -5 /tmp/tort/d; done
