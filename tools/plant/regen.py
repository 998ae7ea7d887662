import sys; sys.path.insert(0,'.')
import lib
lib.fresh(); p=lib.W+"/writer/standard/image_qr_shape.go"; t=open(p).read()
a="	cx, cy := c.x+float64(c.w)/2.0, c.y+float64(c.h)/2.0 // get center point\n"
assert t.count(a)==1
open(p,"w").write(t.replace(a,"	cx, cy := c.x+float64(radius), c.y+float64(radius) // get center point\n"))
open("/verif/seeded/C15-circle-odd/patch.diff","w").write(lib.sh("git -C %s diff"%lib.W).stdout)
b=lib.build(); got,base=lib.tests(); print(b.returncode,set(base["stable"])-set(got["passed"]))
r1=lib.sh("cd %s && bash /verif/seeded/C15-circle-odd/demo.sh"%lib.W); lib.fresh(); r0=lib.sh("cd %s && bash /verif/seeded/C15-circle-odd/demo.sh"%lib.W); print(r1.returncode,r0.returncode, r0.stdout[-300:])
