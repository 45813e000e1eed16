; LLVM intrinsics (llvm.X is looked up here as vps.X) for which the engine has no code of its own
declare i32 @vps_ctpop64(i64)
declare i32 @vps_cttz64(i64)
declare i32 @vps_ctlz64(i64)
declare double @fabs(double)
declare double @floor(double)
declare double @ceil(double)
declare double @trunc(double)
define i8 @vps.ctpop.i8(i8 %x) {
  %e = zext i8 %x to i64
  %r = call i32 @vps_ctpop64(i64 %e)
  %t = trunc i32 %r to i8
  ret i8 %t
}
define i8 @vps.cttz.i8(i8 %x, i1 %z) {
  %e = zext i8 %x to i64
  %m = or i64 %e, 256
  %r = call i32 @vps_cttz64(i64 %m)
  %t = trunc i32 %r to i8
  ret i8 %t
}
define i8 @vps.ctlz.i8(i8 %x, i1 %z) {
  %e = zext i8 %x to i64
  %r = call i32 @vps_ctlz64(i64 %e)
  %s = sub i32 %r, 56
  %t = trunc i32 %s to i8
  ret i8 %t
}
define { i8, i1 } @vps.uadd.with.overflow.i8(i8 %a, i8 %b) {
  %r = add i8 %a, %b
  %x = zext i8 %a to i64
  %y = zext i8 %b to i64
  %p = add i64 %x, %y
  %q = zext i8 %r to i64
  %o = icmp ne i64 %p, %q
  %s = insertvalue { i8, i1 } undef, i8 %r, 0
  %t = insertvalue { i8, i1 } %s, i1 %o, 1
  ret { i8, i1 } %t
}
define { i8, i1 } @vps.usub.with.overflow.i8(i8 %a, i8 %b) {
  %r = sub i8 %a, %b
  %x = zext i8 %a to i64
  %y = zext i8 %b to i64
  %p = sub i64 %x, %y
  %q = zext i8 %r to i64
  %o = icmp ne i64 %p, %q
  %s = insertvalue { i8, i1 } undef, i8 %r, 0
  %t = insertvalue { i8, i1 } %s, i1 %o, 1
  ret { i8, i1 } %t
}
define { i8, i1 } @vps.umul.with.overflow.i8(i8 %a, i8 %b) {
  %r = mul i8 %a, %b
  %x = zext i8 %a to i64
  %y = zext i8 %b to i64
  %p = mul i64 %x, %y
  %q = zext i8 %r to i64
  %o = icmp ne i64 %p, %q
  %s = insertvalue { i8, i1 } undef, i8 %r, 0
  %t = insertvalue { i8, i1 } %s, i1 %o, 1
  ret { i8, i1 } %t
}
define { i8, i1 } @vps.sadd.with.overflow.i8(i8 %a, i8 %b) {
  %r = add i8 %a, %b
  %x = sext i8 %a to i64
  %y = sext i8 %b to i64
  %p = add i64 %x, %y
  %q = sext i8 %r to i64
  %o = icmp ne i64 %p, %q
  %s = insertvalue { i8, i1 } undef, i8 %r, 0
  %t = insertvalue { i8, i1 } %s, i1 %o, 1
  ret { i8, i1 } %t
}
define { i8, i1 } @vps.ssub.with.overflow.i8(i8 %a, i8 %b) {
  %r = sub i8 %a, %b
  %x = sext i8 %a to i64
  %y = sext i8 %b to i64
  %p = sub i64 %x, %y
  %q = sext i8 %r to i64
  %o = icmp ne i64 %p, %q
  %s = insertvalue { i8, i1 } undef, i8 %r, 0
  %t = insertvalue { i8, i1 } %s, i1 %o, 1
  ret { i8, i1 } %t
}
define { i8, i1 } @vps.smul.with.overflow.i8(i8 %a, i8 %b) {
  %r = mul i8 %a, %b
  %x = sext i8 %a to i64
  %y = sext i8 %b to i64
  %p = mul i64 %x, %y
  %q = sext i8 %r to i64
  %o = icmp ne i64 %p, %q
  %s = insertvalue { i8, i1 } undef, i8 %r, 0
  %t = insertvalue { i8, i1 } %s, i1 %o, 1
  ret { i8, i1 } %t
}
define i8 @vps.uadd.sat.i8(i8 %a, i8 %b) {
  %r = add i8 %a, %b
  %o = icmp ult i8 %r, %a
  %s = select i1 %o, i8 -1, i8 %r
  ret i8 %s
}
define i8 @vps.usub.sat.i8(i8 %a, i8 %b) {
  %r = sub i8 %a, %b
  %o = icmp ult i8 %a, %b
  %s = select i1 %o, i8 0, i8 %r
  ret i8 %s
}
define i16 @vps.ctpop.i16(i16 %x) {
  %e = zext i16 %x to i64
  %r = call i32 @vps_ctpop64(i64 %e)
  %t = trunc i32 %r to i16
  ret i16 %t
}
define i16 @vps.cttz.i16(i16 %x, i1 %z) {
  %e = zext i16 %x to i64
  %m = or i64 %e, 65536
  %r = call i32 @vps_cttz64(i64 %m)
  %t = trunc i32 %r to i16
  ret i16 %t
}
define i16 @vps.ctlz.i16(i16 %x, i1 %z) {
  %e = zext i16 %x to i64
  %r = call i32 @vps_ctlz64(i64 %e)
  %s = sub i32 %r, 48
  %t = trunc i32 %s to i16
  ret i16 %t
}
define { i16, i1 } @vps.uadd.with.overflow.i16(i16 %a, i16 %b) {
  %r = add i16 %a, %b
  %x = zext i16 %a to i64
  %y = zext i16 %b to i64
  %p = add i64 %x, %y
  %q = zext i16 %r to i64
  %o = icmp ne i64 %p, %q
  %s = insertvalue { i16, i1 } undef, i16 %r, 0
  %t = insertvalue { i16, i1 } %s, i1 %o, 1
  ret { i16, i1 } %t
}
define { i16, i1 } @vps.usub.with.overflow.i16(i16 %a, i16 %b) {
  %r = sub i16 %a, %b
  %x = zext i16 %a to i64
  %y = zext i16 %b to i64
  %p = sub i64 %x, %y
  %q = zext i16 %r to i64
  %o = icmp ne i64 %p, %q
  %s = insertvalue { i16, i1 } undef, i16 %r, 0
  %t = insertvalue { i16, i1 } %s, i1 %o, 1
  ret { i16, i1 } %t
}
define { i16, i1 } @vps.umul.with.overflow.i16(i16 %a, i16 %b) {
  %r = mul i16 %a, %b
  %x = zext i16 %a to i64
  %y = zext i16 %b to i64
  %p = mul i64 %x, %y
  %q = zext i16 %r to i64
  %o = icmp ne i64 %p, %q
  %s = insertvalue { i16, i1 } undef, i16 %r, 0
  %t = insertvalue { i16, i1 } %s, i1 %o, 1
  ret { i16, i1 } %t
}
define { i16, i1 } @vps.sadd.with.overflow.i16(i16 %a, i16 %b) {
  %r = add i16 %a, %b
  %x = sext i16 %a to i64
  %y = sext i16 %b to i64
  %p = add i64 %x, %y
  %q = sext i16 %r to i64
  %o = icmp ne i64 %p, %q
  %s = insertvalue { i16, i1 } undef, i16 %r, 0
  %t = insertvalue { i16, i1 } %s, i1 %o, 1
  ret { i16, i1 } %t
}
define { i16, i1 } @vps.ssub.with.overflow.i16(i16 %a, i16 %b) {
  %r = sub i16 %a, %b
  %x = sext i16 %a to i64
  %y = sext i16 %b to i64
  %p = sub i64 %x, %y
  %q = sext i16 %r to i64
  %o = icmp ne i64 %p, %q
  %s = insertvalue { i16, i1 } undef, i16 %r, 0
  %t = insertvalue { i16, i1 } %s, i1 %o, 1
  ret { i16, i1 } %t
}
define { i16, i1 } @vps.smul.with.overflow.i16(i16 %a, i16 %b) {
  %r = mul i16 %a, %b
  %x = sext i16 %a to i64
  %y = sext i16 %b to i64
  %p = mul i64 %x, %y
  %q = sext i16 %r to i64
  %o = icmp ne i64 %p, %q
  %s = insertvalue { i16, i1 } undef, i16 %r, 0
  %t = insertvalue { i16, i1 } %s, i1 %o, 1
  ret { i16, i1 } %t
}
define i16 @vps.uadd.sat.i16(i16 %a, i16 %b) {
  %r = add i16 %a, %b
  %o = icmp ult i16 %r, %a
  %s = select i1 %o, i16 -1, i16 %r
  ret i16 %s
}
define i16 @vps.usub.sat.i16(i16 %a, i16 %b) {
  %r = sub i16 %a, %b
  %o = icmp ult i16 %a, %b
  %s = select i1 %o, i16 0, i16 %r
  ret i16 %s
}
define i32 @vps.ctpop.i32(i32 %x) {
  %e = zext i32 %x to i64
  %r = call i32 @vps_ctpop64(i64 %e)
  ret i32 %r
}
define i32 @vps.cttz.i32(i32 %x, i1 %z) {
  %e = zext i32 %x to i64
  %m = or i64 %e, 4294967296
  %r = call i32 @vps_cttz64(i64 %m)
  ret i32 %r
}
define i32 @vps.ctlz.i32(i32 %x, i1 %z) {
  %e = zext i32 %x to i64
  %r = call i32 @vps_ctlz64(i64 %e)
  %s = sub i32 %r, 32
  ret i32 %s
}
define { i32, i1 } @vps.uadd.with.overflow.i32(i32 %a, i32 %b) {
  %r = add i32 %a, %b
  %x = zext i32 %a to i64
  %y = zext i32 %b to i64
  %p = add i64 %x, %y
  %q = zext i32 %r to i64
  %o = icmp ne i64 %p, %q
  %s = insertvalue { i32, i1 } undef, i32 %r, 0
  %t = insertvalue { i32, i1 } %s, i1 %o, 1
  ret { i32, i1 } %t
}
define { i32, i1 } @vps.usub.with.overflow.i32(i32 %a, i32 %b) {
  %r = sub i32 %a, %b
  %x = zext i32 %a to i64
  %y = zext i32 %b to i64
  %p = sub i64 %x, %y
  %q = zext i32 %r to i64
  %o = icmp ne i64 %p, %q
  %s = insertvalue { i32, i1 } undef, i32 %r, 0
  %t = insertvalue { i32, i1 } %s, i1 %o, 1
  ret { i32, i1 } %t
}
define { i32, i1 } @vps.umul.with.overflow.i32(i32 %a, i32 %b) {
  %r = mul i32 %a, %b
  %x = zext i32 %a to i64
  %y = zext i32 %b to i64
  %p = mul i64 %x, %y
  %q = zext i32 %r to i64
  %o = icmp ne i64 %p, %q
  %s = insertvalue { i32, i1 } undef, i32 %r, 0
  %t = insertvalue { i32, i1 } %s, i1 %o, 1
  ret { i32, i1 } %t
}
define { i32, i1 } @vps.sadd.with.overflow.i32(i32 %a, i32 %b) {
  %r = add i32 %a, %b
  %x = sext i32 %a to i64
  %y = sext i32 %b to i64
  %p = add i64 %x, %y
  %q = sext i32 %r to i64
  %o = icmp ne i64 %p, %q
  %s = insertvalue { i32, i1 } undef, i32 %r, 0
  %t = insertvalue { i32, i1 } %s, i1 %o, 1
  ret { i32, i1 } %t
}
define { i32, i1 } @vps.ssub.with.overflow.i32(i32 %a, i32 %b) {
  %r = sub i32 %a, %b
  %x = sext i32 %a to i64
  %y = sext i32 %b to i64
  %p = sub i64 %x, %y
  %q = sext i32 %r to i64
  %o = icmp ne i64 %p, %q
  %s = insertvalue { i32, i1 } undef, i32 %r, 0
  %t = insertvalue { i32, i1 } %s, i1 %o, 1
  ret { i32, i1 } %t
}
define { i32, i1 } @vps.smul.with.overflow.i32(i32 %a, i32 %b) {
  %r = mul i32 %a, %b
  %x = sext i32 %a to i64
  %y = sext i32 %b to i64
  %p = mul i64 %x, %y
  %q = sext i32 %r to i64
  %o = icmp ne i64 %p, %q
  %s = insertvalue { i32, i1 } undef, i32 %r, 0
  %t = insertvalue { i32, i1 } %s, i1 %o, 1
  ret { i32, i1 } %t
}
define i32 @vps.uadd.sat.i32(i32 %a, i32 %b) {
  %r = add i32 %a, %b
  %o = icmp ult i32 %r, %a
  %s = select i1 %o, i32 -1, i32 %r
  ret i32 %s
}
define i32 @vps.usub.sat.i32(i32 %a, i32 %b) {
  %r = sub i32 %a, %b
  %o = icmp ult i32 %a, %b
  %s = select i1 %o, i32 0, i32 %r
  ret i32 %s
}
define i64 @vps.ctpop.i64(i64 %x) {
  %r = call i32 @vps_ctpop64(i64 %x)
  %t = zext i32 %r to i64
  ret i64 %t
}
define i64 @vps.cttz.i64(i64 %x, i1 %z) {
  %r = call i32 @vps_cttz64(i64 %x)
  %t = zext i32 %r to i64
  ret i64 %t
}
define i64 @vps.ctlz.i64(i64 %x, i1 %z) {
  %r = call i32 @vps_ctlz64(i64 %x)
  %t = zext i32 %r to i64
  ret i64 %t
}
define { i64, i1 } @vps.uadd.with.overflow.i64(i64 %a, i64 %b) {
  %r = add i64 %a, %b
  %o = icmp ult i64 %r, %a
  %s = insertvalue { i64, i1 } undef, i64 %r, 0
  %t = insertvalue { i64, i1 } %s, i1 %o, 1
  ret { i64, i1 } %t
}
define { i64, i1 } @vps.usub.with.overflow.i64(i64 %a, i64 %b) {
  %r = sub i64 %a, %b
  %o = icmp ult i64 %a, %b
  %s = insertvalue { i64, i1 } undef, i64 %r, 0
  %t = insertvalue { i64, i1 } %s, i1 %o, 1
  ret { i64, i1 } %t
}
define { i64, i1 } @vps.umul.with.overflow.i64(i64 %a, i64 %b) {
  %r = mul i64 %a, %b
  %n = icmp eq i64 %a, 0
  %d = select i1 %n, i64 1, i64 %a
  %q = udiv i64 %r, %d
  %c = icmp ne i64 %q, %b
  %v = xor i1 %n, true
  %o = and i1 %c, %v
  %s = insertvalue { i64, i1 } undef, i64 %r, 0
  %t = insertvalue { i64, i1 } %s, i1 %o, 1
  ret { i64, i1 } %t
}
define { i64, i1 } @vps.sadd.with.overflow.i64(i64 %a, i64 %b) {
  %r = add i64 %a, %b
  %x = xor i64 %a, %r
  %y = xor i64 %b, %r
  %z = and i64 %x, %y
  %o = icmp slt i64 %z, 0
  %s = insertvalue { i64, i1 } undef, i64 %r, 0
  %t = insertvalue { i64, i1 } %s, i1 %o, 1
  ret { i64, i1 } %t
}
define { i64, i1 } @vps.ssub.with.overflow.i64(i64 %a, i64 %b) {
  %r = sub i64 %a, %b
  %x = xor i64 %a, %b
  %y = xor i64 %a, %r
  %z = and i64 %x, %y
  %o = icmp slt i64 %z, 0
  %s = insertvalue { i64, i1 } undef, i64 %r, 0
  %t = insertvalue { i64, i1 } %s, i1 %o, 1
  ret { i64, i1 } %t
}
define { i64, i1 } @vps.smul.with.overflow.i64(i64 %a, i64 %b) {
  %r = mul i64 %a, %b
  %na = sub i64 0, %a
  %nb = sub i64 0, %b
  %sa = icmp slt i64 %a, 0
  %sb = icmp slt i64 %b, 0
  %ua = select i1 %sa, i64 %na, i64 %a
  %ub = select i1 %sb, i64 %nb, i64 %b
  %neg = xor i1 %sa, %sb
  %z = icmp eq i64 %ua, 0
  %d = select i1 %z, i64 1, i64 %ua
  %lim = select i1 %neg, i64 -9223372036854775808, i64 9223372036854775807
  %q = udiv i64 %lim, %d
  %c = icmp ugt i64 %ub, %q
  %nz = xor i1 %z, true
  %o = and i1 %c, %nz
  %s = insertvalue { i64, i1 } undef, i64 %r, 0
  %t = insertvalue { i64, i1 } %s, i1 %o, 1
  ret { i64, i1 } %t
}
define i64 @vps.uadd.sat.i64(i64 %a, i64 %b) {
  %r = add i64 %a, %b
  %o = icmp ult i64 %r, %a
  %s = select i1 %o, i64 -1, i64 %r
  ret i64 %s
}
define i64 @vps.usub.sat.i64(i64 %a, i64 %b) {
  %r = sub i64 %a, %b
  %o = icmp ult i64 %a, %b
  %s = select i1 %o, i64 0, i64 %r
  ret i64 %s
}
define double @vps.fabs.f64(double %x) {
  %r = call double @fabs(double %x)
  ret double %r
}
define double @vps.floor.f64(double %x) {
  %r = call double @floor(double %x)
  ret double %r
}
define double @vps.ceil.f64(double %x) {
  %r = call double @ceil(double %x)
  ret double %r
}
define double @vps.trunc.f64(double %x) {
  %r = call double @trunc(double %x)
  ret double %r
}
define double @vps.fmuladd.f64(double %a, double %b, double %c) {
  %p = fmul double %a, %b
  %r = fadd double %p, %c
  ret double %r
}
define float @vps.fmuladd.f32(float %a, float %b, float %c) {
  %p = fmul float %a, %b
  %r = fadd float %p, %c
  ret float %r
}
