------------------------------- MODULE Lattice -------------------------------
(* Rigid poses whose rotation is a multiple of quarter turns about the axes    *)
(* and whose translation is integer: 12 integers, rotation row by row, then    *)
(* translation.  <<>> stands for "some pose that is not on the lattice".       *)
EXTENDS Integers, Sequences

Unknown == <<>>
IdPose  == <<1,0,0, 0,1,0, 0,0,1, 0,0,0>>

Mul(a, b) ==
  IF a = Unknown \/ b = Unknown THEN Unknown ELSE
  << a[1]*b[1]+a[2]*b[4]+a[3]*b[7], a[1]*b[2]+a[2]*b[5]+a[3]*b[8], a[1]*b[3]+a[2]*b[6]+a[3]*b[9],
     a[4]*b[1]+a[5]*b[4]+a[6]*b[7], a[4]*b[2]+a[5]*b[5]+a[6]*b[8], a[4]*b[3]+a[5]*b[6]+a[6]*b[9],
     a[7]*b[1]+a[8]*b[4]+a[9]*b[7], a[7]*b[2]+a[8]*b[5]+a[9]*b[8], a[7]*b[3]+a[8]*b[6]+a[9]*b[9],
     a[1]*b[10]+a[2]*b[11]+a[3]*b[12]+a[10],
     a[4]*b[10]+a[5]*b[11]+a[6]*b[12]+a[11],
     a[7]*b[10]+a[8]*b[11]+a[9]*b[12]+a[12] >>

Inv(a) ==
  IF a = Unknown THEN Unknown ELSE
  << a[1],a[4],a[7], a[2],a[5],a[8], a[3],a[6],a[9],
     -(a[1]*a[10]+a[4]*a[11]+a[7]*a[12]),
     -(a[2]*a[10]+a[5]*a[11]+a[8]*a[12]),
     -(a[3]*a[10]+a[6]*a[11]+a[9]*a[12]) >>

Trans(v) == <<1,0,0, 0,1,0, 0,0,1, v[1],v[2],v[3]>>
Pos(a)   == <<a[10], a[11], a[12]>>
SetPos(a, v) == IF a = Unknown THEN Unknown ELSE << a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9], v[1],v[2],v[3] >>
Apply(a, v) == << a[1]*v[1]+a[2]*v[2]+a[3]*v[3]+a[10],
                  a[4]*v[1]+a[5]*v[2]+a[6]*v[3]+a[11],
                  a[7]*v[1]+a[8]*v[2]+a[9]*v[3]+a[12] >>

UnitAxes == { <<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<0,-1,0>>, <<0,0,1>>, <<0,0,-1>> }

(* rotation by deg degrees about a unit axis *)
Rot(ax, deg) ==
  IF deg % 90 # 0 \/ ax \notin UnitAxes THEN (IF deg % 360 = 0 THEN IdPose ELSE Unknown) ELSE
  LET k == (deg \div 90) % 4
      c == <<1, 0, -1, 0>>[k+1]
      s == <<0, 1, 0, -1>>[k+1]
      x == ax[1]  y == ax[2]  z == ax[3]  v == 1 - c
  IN << c+v*x*x, v*x*y-s*z, v*x*z+s*y,
        v*x*y+s*z, c+v*y*y, v*y*z-s*x,
        v*x*z-s*y, v*y*z+s*x, c+v*z*z, 0, 0, 0 >>

(* true when p is known and q is a value the pose may have been observed as *)
Agrees(model, observed) == model = Unknown \/ model = observed

IsRigid(p) == p = Unknown \/ Mul(p, Inv(p)) = IdPose
=============================================================================
