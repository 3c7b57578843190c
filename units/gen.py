#!/usr/bin/env python3
"""Writes uint.inc / dec_*.inc (the repetitive prelude text). Run by hand; its output is committed."""
import os
here=os.path.dirname(os.path.abspath(__file__))
U={'U128':2,'U192':3,'U256':4,'U320':5,'U384':6,'U448':7,'U512':8}
PR={'u8':8,'u16':16,'u32':32,'u64':64,'u128':128}
o=[]
def p2(b):
    # 2^b as an expression of literals that fit u128
    q=[]
    while b>0:
        s_=min(b,64); q.append(str(2**s_)); b-=s_
    q=q or ['1']
    r=q[-1]
    for x in reversed(q[:-1]): r=f'({x} * {r})'
    return r
w=o.append
w('''pub mod uint { use super::*; use vstd::prelude::*;
// ---- unsigned integers: the `uint` crate is outside the verified code; its operations are trusted
// with the contracts below, all stated on the mathematical value uv() of the limbs.
pub trait UVal: Sized {
    spec fn uv(self) -> int;
    spec fn umin() -> int;
    spec fn umax() -> int;
    proof fn uv_range(self) ensures Self::umin() <= self.uv() <= Self::umax();
}
pub trait VFrom<T: UVal>: UVal { fn vfrom(v: T) -> (r: Self) ensures r.uv() == v.uv(); }
pub trait VTryFrom<T: UVal>: UVal { fn vtry_from(v: T) -> (r: Result<Self, VString>) ensures match r { Ok(x) => x.uv() == v.uv(), Err(_) => v.uv() < Self::umin() || v.uv() > Self::umax() }; }
pub trait VTryInto<T: UVal>: UVal { fn vtry_into(self) -> (r: Result<T, VString>) ensures match r { Ok(x) => x.uv() == self.uv(), Err(_) => self.uv() < T::umin() || self.uv() > T::umax() }; }
impl<A: UVal, B: VTryFrom<A>> VTryInto<B> for A { fn vtry_into(self) -> (r: Result<B, VString>) { B::vtry_from(self) } }
pub trait VInto<T: UVal>: UVal { fn vinto(self) -> (r: T) ensures r.uv() == self.uv(); }
impl<A: UVal, B: VFrom<A>> VInto<B> for A { fn vinto(self) -> (r: B) { B::vfrom(self) } }
''')
W={'u8':('u',8),'u16':('u',16),'u32':('u',32),'u64':('u',64),'u128':('u',128),'i32':('i',32),'usize':('u',64),'i64':('i',64)}
prim=list(W)
def rng(t):
    sg,n=W[t]
    if t=='usize': return '0','usize::MAX as int'
    return ('0',str(2**n-1)) if sg=='u' else (f'(-{2**(n-1)})',str(2**(n-1)-1))
for p in prim:
    lo,hi=rng(p)
    w(f'impl UVal for {p} {{ open spec fn uv(self) -> int {{ self as int }} open spec fn umin() -> int {{ {lo} }} open spec fn umax() -> int {{ {hi} }} proof fn uv_range(self) {{}} }}')
for a in prim:
    for b in prim:
        sa,wa=W[a];sb,wb=W[b]
        widen = a==b or (a!='usize' and b!='usize' and ((sa==sb and wa<=wb) or (sa=='u' and sb=='i' and wa<wb))) or (b=='usize' and a in('u8','u16'))
        if widen: w(f'impl VFrom<{a}> for {b} {{ #[verifier::external_body] fn vfrom(v: {a}) -> (r: {b}) {{ unimplemented!() }} }}')
        w(f'impl VTryFrom<{a}> for {b} {{ #[verifier::external_body] fn vtry_from(v: {a}) -> (r: Result<{b}, VString>) {{ unimplemented!() }} }}')
for n,k in U.items():
    val=f'(a[{k-1}] as int)'
    for i in range(k-2,-1,-1): val=f'((a[{i}] as int) + {2**64} * {val})'
    mx='('+p2(64*k)+' - 1)'
    ln=n.lower()
    w(f'''
#[verifier::opaque]
pub open spec fn {ln}_val(a: [u64; {k}]) -> int {{ {val} }}
#[derive(Clone, Copy)]
pub struct {n}(pub [u64; {k}]);
impl UVal for {n} {{
    open spec fn uv(self) -> int {{ {ln}_val(self.0) }}
    open spec fn umin() -> int {{ 0 }}
    open spec fn umax() -> int {{ {mx} }}
    proof fn uv_range(self) {{ reveal({ln}_val); }}
}}
pub broadcast proof fn {ln}_range(x: {n}) ensures 0 <= #[trigger] x.uv() <= {mx} {{ reveal({ln}_val); }}
impl {n} {{
    #[verifier::external_body] pub exec const MAX: {n} ensures {n}::MAX.uv() == {mx} {{ {n}([u64::MAX; {k}]) }}
    #[verifier::external_body] pub fn max_value() -> (r: {n}) ensures r.uv() == {mx} {{ unimplemented!() }}
    #[verifier::external_body] pub fn zero() -> (r: {n}) ensures r.uv() == 0 {{ unimplemented!() }}
    #[verifier::external_body] pub fn one() -> (r: {n}) ensures r.uv() == 1 {{ unimplemented!() }}
    #[verifier::external_body] pub fn default() -> (r: {n}) ensures r.uv() == 0 {{ unimplemented!() }}
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.uv() == 0) {{ unimplemented!() }}
    #[verifier::external_body] pub fn checked_add(self, o: {n}) -> (r: Option<{n}>) ensures match r {{ Some(x) => x.uv() == self.uv() + o.uv(), None => self.uv() + o.uv() > {mx} }} {{ unimplemented!() }}
    #[verifier::external_body] pub fn checked_sub(self, o: {n}) -> (r: Option<{n}>) ensures match r {{ Some(x) => x.uv() == self.uv() - o.uv(), None => self.uv() < o.uv() }} {{ unimplemented!() }}
    #[verifier::external_body] pub fn checked_mul(self, o: {n}) -> (r: Option<{n}>) ensures match r {{ Some(x) => x.uv() == self.uv() * o.uv(), None => self.uv() * o.uv() > {mx} }} {{ unimplemented!() }}
    #[verifier::external_body] pub fn checked_div(self, o: {n}) -> (r: Option<{n}>) ensures match r {{ Some(x) => o.uv() != 0 && x.uv() == self.uv() / o.uv(), None => o.uv() == 0 }} {{ unimplemented!() }}
    #[verifier::external_body] pub fn checked_rem(self, o: {n}) -> (r: Option<{n}>) ensures match r {{ Some(x) => o.uv() != 0 && x.uv() == self.uv() % o.uv(), None => o.uv() == 0 }} {{ unimplemented!() }}
    #[verifier::external_body] pub fn checked_pow(self, o: {n}) -> (r: Option<{n}>) ensures match r {{ Some(x) => x.uv() == ipow(self.uv(), o.uv() as nat), None => ipow(self.uv(), o.uv() as nat) > {mx} }} {{ unimplemented!() }}
    #[verifier::external_body] pub fn low_u64(&self) -> (r: u64) ensures r == self.0[0] {{ unimplemented!() }}
    #[verifier::external_body] pub fn low_u128(&self) -> (r: u128) ensures r as int == self.0[0] as int + (self.0[1] as int) * {2**64} {{ unimplemented!() }}
    #[verifier::external_body] pub fn as_u128(&self) -> (r: u128) ensures r as int == self.uv() {{ unimplemented!() }}
    #[verifier::external_body] pub fn as_u64(&self) -> (r: u64) ensures r as int == self.uv() {{ unimplemented!() }}
}}
pub assume_specification [ <{n} as PartialEq>::eq ] (a: &{n}, b: &{n}) -> (r: bool) ensures r == (a.uv() == b.uv()), r == (*a == *b);''' .replace(f'pub assume_specification [ <{n} as PartialEq>::eq ] (a: &{n}, b: &{n}) -> (r: bool) ensures r == (a.uv() == b.uv()), r == (*a == *b);',''))
    w(f'''impl PartialEq for {n} {{ #[verifier::external_body] fn eq(&self, o: &{n}) -> (r: bool) ensures r == (self.uv() == o.uv()), r == (*self == *o) {{ unimplemented!() }} }}
impl Eq for {n} {{}}
impl vstd::std_specs::cmp::PartialEqSpecImpl for {n} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{n}) -> bool {{ *self == *o }} }}
impl PartialOrd for {n} {{ #[verifier::external_body] fn partial_cmp(&self, o: &{n}) -> (r: Option<core::cmp::Ordering>) {{ unimplemented!() }} }}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for {n} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} open spec fn partial_cmp_spec(&self, o: &{n}) -> Option<core::cmp::Ordering> {{ if self.uv() < o.uv() {{ Some(core::cmp::Ordering::Less) }} else if self.uv() > o.uv() {{ Some(core::cmp::Ordering::Greater) }} else {{ Some(core::cmp::Ordering::Equal) }} }} }}''')
    for tr,fn,op,req in (('Add','add','+',None),('Sub','sub','-',None),('Mul','mul','*',None),('Div','div','/',None)):
        for rt in (n,'i32'):
            rv='o.uv()' if rt==n else '(o as int)'
            ens=f'r.uv() == self.uv() {op} {rv}'
            if tr=='Div': ens=f'{rv} != 0, '+ens
            w(f'''impl core::ops::{tr}<{rt}> for {n} {{ type Output = {n}; #[verifier::external_body] fn {fn}(self, o: {rt}) -> (r: {n}) ensures {ens} {{ unimplemented!() }} }}
impl vstd::std_specs::ops::{tr}SpecImpl<{rt}> for {n} {{ open spec fn obeys_{fn}_spec() -> bool {{ false }} open spec fn {fn}_req(self, o: {rt}) -> bool {{ true }} open spec fn {fn}_spec(self, o: {rt}) -> {n} {{ arbitrary() }} }}''')
    w(f'''impl core::ops::Shr<i32> for {n} {{ type Output = {n}; #[verifier::external_body] fn shr(self, o: i32) -> (r: {n}) ensures 0 <= o ==> r.uv() == self.uv() / ipow(2, o as nat) {{ unimplemented!() }} }}
impl vstd::std_specs::ops::ShrSpecImpl<i32> for {n} {{ open spec fn obeys_shr_spec() -> bool {{ false }} open spec fn shr_req(self, o: i32) -> bool {{ true }} open spec fn shr_spec(self, o: i32) -> {n} {{ arbitrary() }} }}''')
    for p in list(PR)+['i32']:
        w(f'impl VFrom<{p}> for {n} {{ #[verifier::external_body] fn vfrom(v: {p}) -> (r: {n}) {{ unimplemented!() }} }}')
        w(f'impl VTryFrom<{p}> for {n} {{ #[verifier::external_body] fn vtry_from(v: {p}) -> (r: Result<{n}, VString>) {{ unimplemented!() }} }}')
        if p!='i32': w(f'impl VTryFrom<{n}> for {p} {{ #[verifier::external_body] fn vtry_from(v: {n}) -> (r: Result<{p}, VString>) {{ unimplemented!() }} }}')
    for m in U:
        w(f'impl VTryFrom<{n}> for {m} {{ #[verifier::external_body] fn vtry_from(v: {n}) -> (r: Result<{m}, VString>) {{ unimplemented!() }} }}')
w('pub broadcast group uint_ranges { '+', '.join(n.lower()+'_range' for n in U)+' }')
w('}\npub use uint::*;')
open(here+'/uint.inc','w').write('\n'.join(o)+'\n')

# ---------------- decimals
LIQ_EXT = '''
    reveal(u256_val); let (x, y) = (a.0.0, b.0.0); let w = 18446744073709551616int;
    l_digit(x[0] as int, y[0] as int, (x[1] as int) + w * ((x[2] as int) + w * (x[3] as int)), (y[1] as int) + w * ((y[2] as int) + w * (y[3] as int)));
    l_digit(x[1] as int, y[1] as int, (x[2] as int) + w * (x[3] as int), (y[2] as int) + w * (y[3] as int)); l_digit(x[2] as int, y[2] as int, x[3] as int, y[3] as int);
    assert(x =~= y);
'''
L_DIGIT = '''pub proof fn l_digit(x: int, y: int, p: int, q: int) requires 0 <= x <= 18446744073709551615, 0 <= y <= 18446744073709551615, x + 18446744073709551616int * p == y + 18446744073709551616int * q ensures x == y, p == q { }'''
D=[('TokenAmount','U256',0,'U512'),('Liquidity','U256',5,'U512'),('SqrtPrice','u128',24,'U384'),('Percentage','u128',12,'U256'),('FeeGrowth','u128',28,'U256'),('FixedPoint','u128',12,'U192'),('SecondsPerLiquidity','u128',25,'U256')]
def dmax(u): return '('+p2(256 if u=='U256' else 128)+' - 1)'
def common(n,u,sc,big):
    e=[]
    dvx='self.0.uv()' if u=='U256' else 'self.0 as int'
    e.append(f"""#[derive(Clone, Copy)]
pub struct {n}(pub {u});
impl {n} {{ pub open spec fn d(&self) -> int {{ {dvx} }}
    #[verifier::external_body] pub fn default() -> (r: {n}) ensures r.d() == 0 {{ unimplemented!() }} }}
pub proof fn {n.lower()}_ext(a: {n}, b: {n}) requires a.d() == b.d() ensures a == b {{ {LIQ_EXT if n=='Liquidity' else 'reveal(u256_val); assert(a.0.0[0] == b.0.0[0] && a.0.0[1] == b.0.0[1] && a.0.0[2] == b.0.0[2] && a.0.0[3] == b.0.0[3]); assert(a.0.0 =~= b.0.0);' if u=='U256' else ''} }}{chr(10)+L_DIGIT if n=='Liquidity' else ''}
impl PartialEq for {n} {{ #[verifier::external_body] fn eq(&self, o: &{n}) -> (r: bool) ensures r == (self.d() == o.d()), r == (*self == *o) {{ unimplemented!() }} }}
impl Eq for {n} {{}}
impl vstd::std_specs::cmp::PartialEqSpecImpl for {n} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{n}) -> bool {{ *self == *o }} }}
impl PartialOrd for {n} {{ #[verifier::external_body] fn partial_cmp(&self, o: &{n}) -> (r: Option<core::cmp::Ordering>) {{ unimplemented!() }} }}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for {n} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} open spec fn partial_cmp_spec(&self, o: &{n}) -> Option<core::cmp::Ordering> {{ if self.d() < o.d() {{ Some(core::cmp::Ordering::Less) }} else if self.d() > o.d() {{ Some(core::cmp::Ordering::Greater) }} else {{ Some(core::cmp::Ordering::Equal) }} }} }}
impl Conversion for {n} {{}}""")
    for tr,fn in (('Add','add'),('Sub','sub')):
        e.append(f"impl vstd::std_specs::ops::{tr}SpecImpl<{n}> for {n} {{ open spec fn obeys_{fn}_spec() -> bool {{ false }} open spec fn {fn}_req(self, o: {n}) -> bool {{ true }} open spec fn {fn}_spec(self, o: {n}) -> {n} {{ arbitrary() }} }}")
    for tr,fn in (('Mul','mul'),('Div','div')):
        e.append(f"impl<T: Decimal> vstd::std_specs::ops::{tr}SpecImpl<T> for {n} where T::U: VTryInto<{u}> {{ open spec fn obeys_{fn}_spec() -> bool {{ false }} open spec fn {fn}_req(self, o: T) -> bool {{ true }} open spec fn {fn}_spec(self, o: T) -> {n} {{ arbitrary() }} }}")
    for tr,fn in (('AddAssign','add_assign'),('SubAssign','sub_assign'),('MulAssign','mul_assign'),('DivAssign','div_assign')):
        e.append(f"impl vstd::std_specs::ops::{tr}SpecImpl<{n}> for {n} {{ open spec fn obeys_{fn}_spec() -> bool {{ false }} open spec fn {fn}_req(&self, o: {n}) -> bool {{ true }} open spec fn {fn}_spec(&self, o: {n}) -> &{n} {{ arbitrary() }} }}")
    return '\n'.join(e)
OPENS={'Add':'r.d() == self.d() + rhs.d()','Sub':'r.d() == self.d() - rhs.d()','Mul':'r.d() == self.d() * rhs.dv() / T::sone()','Div':'rhs.dv() != 0, r.d() == self.d() * T::sone() / rhs.dv()',
 'AddAssign':'final(self).d() == old(self).d() + rhs.d()','SubAssign':'final(self).d() == old(self).d() - rhs.d()','MulAssign':'final(self).d() == muldiv(old(self).d(), rhs.d(), Self::sone())','DivAssign':'rhs.d() != 0, final(self).d() == old(self).d() * Self::sone() / rhs.d()'}
def fnn(t): 
    import re
    return re.sub(r'(?<!^)(?=[A-Z])','_',t).lower()
def decspec(n,u,sc,big): return f"    open spec fn dv(&self) -> int {{ self.d() }}\n    open spec fn sone() -> int {{ {10**sc} }}\n    open spec fn sscale() -> int {{ {sc} }}\n    open spec fn dmax() -> int {{ {dmax(u)} }}"
def bmax(big): return '('+p2(64*U[big])+' - 1)'
def assumed(n,u,sc,big):
    X='#[verifier::external_body] '; un='{ unimplemented!() }'
    e=[f"impl Decimal for {n} {{\n    type U = {u};\n"+decspec(n,u,sc,big)]
    for f,a,r in (('get','&self',u),('new',f'value: {u}',n),('max_instance','',n),('max_value','',u),('scale','','u8'),('checked_one','',f'Result<{n}, VString>'),('one','',n),('checked_almost_one','',f'Result<{n}, VString>'),('almost_one','',n)):
        e.append(f"    {X}fn {f}({a}) -> (r: {r}) {un}")
    e.append('}')
    for t in ('Add','Sub'): e.append(f"impl core::ops::{t} for {n} {{ type Output = {n}; {X}fn {fnn(t)}(self, rhs: {n}) -> (r: {n}) ensures {OPENS[t]} {un} }}")
    for t in ('Mul','Div'): e.append(f"impl<T: Decimal> core::ops::{t}<T> for {n} where T::U: VTryInto<{u}> {{ type Output = {n}; {X}fn {fnn(t)}(self, rhs: T) -> (r: {n}) ensures {OPENS[t]} {un} }}")
    for t in ('AddAssign','SubAssign','MulAssign','DivAssign'): e.append(f"impl core::ops::{t} for {n} {{ {X}fn {fnn(t)}(&mut self, rhs: {n}) ensures {OPENS[t]} {un} }}")
    def im(head,spec,fns):
        e.append(head+' {'+spec)
        for f,a,r in fns: e.append(f"    {X}fn {f}({a}) -> (r: {r}) {un}")
        e.append('}')
    R=f'Result<{n}, VString>'
    im(f"impl<T: Decimal + Conversion> BigOps<T> for {n} where {big}: UintCast<<T as Decimal>::U>",f' open spec fn bmax() -> int {{ {bmax(big)} }}',[(f,'self, rhs: T',n) for f in('big_mul','big_mul_up','big_div','big_div_up')]+[('checked_big_div','self, rhs: T',R)])
    im(f"impl ByNumber<{big}> for {n}",f' open spec fn nmax() -> int {{ {bmax(big)} }}',[(f,f'self, rhs: {big}',n) for f in('big_div_by_number','big_div_by_number_up')]+[(f,f'self, rhs: {big}',R) for f in('checked_big_div_by_number','checked_big_div_by_number_up')])
    im(f"impl<T: Decimal + Conversion> ToValue<T, {big}> for {n} where {big}: UintCast<<T as Decimal>::U>",'',[(f,'self, rhs: T',big) for f in('big_mul_to_value','big_mul_to_value_up')])
    im(f"impl<T: Decimal> Others<T> for {n} where T::U: VTryInto<{u}>",'',[(f,'self, rhs: T',n) for f in('mul_up','div_up')])
    im(f"impl OthersSameType for {n}",'',[('sub_abs','self, rhs: Self',n)])
    im(f"impl<T: UVal> Factories<T> for {n} where {u}: UintCast<T>",'',[('from_integer','integer: T',n),('from_scale','integer: T, scale: u8',n),('checked_from_scale','integer: T, scale: u8',R),('from_scale_up','integer: T, scale: u8',n)])
    im(f"impl FactoriesUnderlying for {n}",'',[('from_integer_underlying',f'integer: {u}',n),('from_scale_underlying',f'integer: {u}, scale: u8',n),('checked_from_scale_underlying',f'integer: {u}, scale: u8',R),('from_scale_up_underlying',f'integer: {u}, scale: u8',n)])
    im(f"impl<T: Decimal> BetweenDecimals<T> for {n} where Self: Factories<T::U>",'',[('from_decimal','other: T',n),('checked_from_decimal','other: T',R),('from_decimal_up','other: T',n)])
    im(f"impl<T: UVal> FactoriesToValue<T, {big}> for {n} where {big}: UintCast<T>",'',[('checked_from_scale_to_value','val: T, scale: u8',f'Result<{big}, VString>')])
    im(f"impl<T: Decimal, B: UVal> BetweenDecimalsToValue<T, B> for {n} where Self: FactoriesToValue<T::U, B>",'',[('checked_from_decimal_to_value','other: T','Result<B, VString>')])
    im(f"impl CheckedOps for {n}",'',[(f,'self, rhs: Self',R) for f in('checked_add','checked_sub','checked_div')])
    e.append(f"impl {n} {{ {X}pub fn is_zero(self) -> (r: bool) ensures r == (self.d() == 0) {un} }}")
    return '\n'.join(e)
def proved(n,u,sc,big):
    src='expanded:math'
    pw=f"    assert(p10({sc}) == {10**sc}) by {{ lemma_p10({sc}); }}" 
    e=[]
    def ti(tr,ms,spec='',opts=''):
        e.append(f"//@traitimpl {src} {tr} {n} {opts}\n{spec}")
        for m,(cl,pre) in ms.items():
            e.append(f"//@m {m}"); 
            if cl: e.append(cl)
            if pre: e.append("//@pre\n"+pre)
        e.append("//@end")
    one=f"        proof {{ lemma_p10_{sc}(); }}"
    ti('Decimal',{'checked_one':('',one)},decspec(n,u,sc,big),'skip=here')
    for t in ('Add','Sub','Mul','Div','AddAssign','SubAssign','MulAssign','DivAssign'): ti(t,{fnn(t):('    ensures '+OPENS[t],'    proof { reveal(muldiv); }' if t=='MulAssign' else '')})
    ti('BigOps',{},f'    open spec fn bmax() -> int {{ {bmax(big)} }}')
    ti('ByNumber',{},f'    open spec fn nmax() -> int {{ {bmax(big)} }}')
    ti('ToValue',{}); ti('Others',{}); ti('OthersSameType',{})
    ti('Factories',{},'','gen=*:UVal')
    ti('FactoriesUnderlying',{},'','skip=U')
    ti('BetweenDecimals',{}); 
    ti('FactoriesToValue',{},'','gen=*:UVal'); ti('BetweenDecimalsToValue',{},'','gen=*:UVal'); ti('CheckedOps',{})
    e.append(f"//@fn {src} {n}::is_zero -> r\n    ensures r == (self.d() == 0)\n//@end")
    return '\n'.join(e)
for d in D:
    open(here+f'/dec_{d[0]}.inc','w').write(common(*d)+'\n'+assumed(*d)+'\n')
    open(here+f'/decp_{d[0]}.inc','w').write(common(*d)+'\n'+proved(*d)+'\n')
open(here+'/dec_all.inc','w').write('//@include dec_traits.inc\n//@include dec_conv.inc\n//@include casts_assumed.inc\n'+''.join(f'//@include dec_{d[0]}.inc\n' for d in D))
# ---- casts
us=list(U); c=[]
X='#[verifier::external_body] '
for a in list(PR)+us+['i32']:
    for b in list(PR)+us:
        if a==b: continue
        au,bu=a in U,b in U
        if au or bu or b=='u128':
            both = not (a=='i32' and b=='u128')
            if a=='i32' and b=='u128': c.append(f"impl UintCast<i32> for u128 {{ {X}fn uint_cast(value: i32) -> (r: u128) {{ unimplemented!() }} }}"); continue
            c.append(f"impl UintCast<{a}> for {b} {{ {X}fn uint_cast(value: {a}) -> (r: {b}) {{ unimplemented!() }} }}")
            c.append(f"impl UintCheckedCast<{a}> for {b} {{ {X}fn uint_checked_cast(value: {a}) -> (r: Result<{b}, VString>) {{ unimplemented!() }} }}")
open(here+'/casts_assumed.inc','w').write('\n'.join(c)+'\n')
q=[]
for a in list(PR)+us+['i32']:
    for b in list(PR)+us:
        if a==b: continue
        au,bu=a in U,b in U
        if not(au or bu or b=='u128'): continue
        # reveal what each cast needs
        pre='        proof { '+' '.join(f'reveal({x.lower()}_val);' for x in (a,b) if x in U)
        if au: 
            k=U[a]; pre+=' broadcast use or_zero;'
        pre+=' }'
        for tr,m in (('UintCast','uint_cast'),('UintCheckedCast','uint_checked_cast')):
            if a=='i32' and b=='u128' and tr=='UintCheckedCast': continue
            q.append(f"//@traitimpl {'expanded:decimal'} {tr}<{a}> {b}\n//@m {m}\n//@pre\n{pre}\n//@end")
open(here+'/casts_proved.inc','w').write('\n'.join(q)+'\n')
