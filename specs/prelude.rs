// ---------------------------------------------------------------------------
// Shims: contracts assumed for library types and functions the extracted code
// uses.  Everything marked external_body/uninterp here is part of the trusted
// base and is listed by the driver on every run.
// ---------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }

impl<V> HashMap<String, V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    /// iteration order of this map value: every key exactly once
    pub uninterp spec fn keys_seq(&self) -> Seq<Seq<char>>;

    #[verifier::external_body]
    pub broadcast proof fn axiom_keys(&self)
        ensures #![trigger self.keys_seq()]
            self.keys_seq().no_duplicates(),
            forall|k: Seq<char>| #![auto] self.keys_seq().contains(k) <==> self@.dom().contains(k),
    { }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.dom().contains(k@) && *v == self@[k@], None => !self@.dom().contains(k@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.dom().contains(k@) && *v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(v)),
            None => !old(self)@.dom().contains(k@) && *final(self) == *old(self),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v),
            r == (if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: Option<V>)
        ensures match r {
            Some(v) => old(self)@.dom().contains(k@) && v == old(self)@[k@] && final(self)@ == old(self)@.remove(k@),
            None => !old(self)@.dom().contains(k@) && *final(self) == *old(self),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.keys_seq().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<Seq<char>, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> (r: VIter<&'a V>)
        ensures r.pos() == 0, r.seq().len() == self.keys_seq().len(),
            forall|i: int| 0 <= i < r.seq().len() ==> *#[trigger] r.seq()[i] == self@[self.keys_seq()[i]],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn viter<'a>(&'a self) -> (r: VIter<(&'a String, &'a V)>)
        ensures r.pos() == 0, r.seq().len() == self.keys_seq().len(),
            forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i]).0@ == self.keys_seq()[i] && *r.seq()[i].1 == self@[self.keys_seq()[i]],
    { unimplemented!() }
}

// ---- eager iterator --------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { v: Vec<T>, i: usize }

impl<T> VIter<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn rest(&self) -> Seq<T> { self.seq().subrange(self.pos(), self.seq().len() as int) }

    #[verifier::external_body]
    pub fn has_next(&self) -> (r: bool) ensures r == (self.pos() < self.seq().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn take_next(&mut self) -> (r: T)
        requires 0 <= old(self).pos() < old(self).seq().len(),
        ensures r == old(self).seq()[old(self).pos()], final(self).seq() == old(self).seq(), final(self).pos() == old(self).pos() + 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).seq() == old(self).seq(),
            match r {
                Some(x) => old(self).pos() < old(self).seq().len() && x == old(self).seq()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
                None => old(self).pos() >= old(self).seq().len() && final(self).pos() == old(self).pos(),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: FnMut(T) -> bool>(self, f: F) -> (r: bool)
        requires self.pos() == 0, forall|x: T| #[trigger] f.requires((x,)),
        ensures
            r ==> exists|i: int| 0 <= i < self.seq().len() && f.ensures((#[trigger] self.seq()[i],), true),
            !r ==> forall|i: int| 0 <= i < self.seq().len() ==> f.ensures((#[trigger] self.seq()[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: FnMut(T) -> bool>(self, f: F) -> (r: bool)
        requires self.pos() == 0, forall|x: T| #[trigger] f.requires((x,)),
        ensures
            !r ==> exists|i: int| 0 <= i < self.seq().len() && f.ensures((#[trigger] self.seq()[i],), false),
            r ==> forall|i: int| 0 <= i < self.seq().len() ==> f.ensures((#[trigger] self.seq()[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: FnMut(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires self.pos() == 0, forall|x: T| #[trigger] f.requires((&x,)),
        ensures match r {
            Some(x) => exists|i: int| 0 <= i < self.seq().len() && x == #[trigger] self.seq()[i] && f.ensures((&self.seq()[i],), true)
                && forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] self.seq()[j],), false),
            None => forall|i: int| 0 <= i < self.seq().len() ==> f.ensures((&#[trigger] self.seq()[i],), false),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn position<F: FnMut(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires self.pos() == 0, forall|x: T| #[trigger] f.requires((x,)),
        ensures match r {
            Some(i) => i < self.seq().len() && f.ensures((self.seq()[i as int],), true)
                && forall|j: int| 0 <= j < i ==> f.ensures((#[trigger] self.seq()[j],), false),
            None => forall|i: int| 0 <= i < self.seq().len() ==> f.ensures((#[trigger] self.seq()[i],), false),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: FnMut(T) -> U>(self, f: F) -> (r: VIter<U>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.seq().len() ==> f.requires((#[trigger] self.seq()[i],)),
        ensures r.pos() == 0, r.seq().len() == self.seq().len(),
            forall|i: int| 0 <= i < self.seq().len() ==> f.ensures((self.seq()[i],), #[trigger] r.seq()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>)
        requires self.pos() == 0,
        ensures r@ == self.seq(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) requires self.pos() == 0 ensures r == self.seq().len() { unimplemented!() }
}

pub trait IntoV: Sized {
    type Item;
    spec fn iv(self, s: Seq<Self::Item>) -> bool;
    fn into_v(self) -> (r: VIter<Self::Item>) ensures r.pos() == 0, self.iv(r.seq());
}
impl<T> IntoV for VIter<T> {
    type Item = T;
    open spec fn iv(self, s: Seq<T>) -> bool { self.pos() == 0 ==> s == self.seq() }
    #[verifier::external_body]
    fn into_v(self) -> (r: VIter<T>) { self }
}
impl<T> IntoV for Vec<T> {
    type Item = T;
    open spec fn iv(self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body]
    fn into_v(self) -> (r: VIter<T>) { unimplemented!() }
}
impl<'a, T> IntoV for &'a Vec<T> {
    type Item = &'a T;
    open spec fn iv(self, s: Seq<&'a T>) -> bool { s == refs(self@) }
    #[verifier::external_body]
    fn into_v(self) -> (r: VIter<&'a T>) { unimplemented!() }
}
impl<V> IntoV for HashMap<String, V> {
    type Item = (String, V);
    open spec fn iv(self, s: Seq<(String, V)>) -> bool {
        s.len() == self.keys_seq().len()
        && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@ == self.keys_seq()[i] && s[i].1 == self@[self.keys_seq()[i]]
    }
    #[verifier::external_body]
    fn into_v(self) -> (r: VIter<(String, V)>) { unimplemented!() }
}
impl<'a, V> IntoV for &'a HashMap<String, V> {
    type Item = (&'a String, &'a V);
    open spec fn iv(self, s: Seq<(&'a String, &'a V)>) -> bool {
        s.len() == self.keys_seq().len()
        && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@ == self.keys_seq()[i] && *s[i].1 == self@[self.keys_seq()[i]]
    }
    #[verifier::external_body]
    fn into_v(self) -> (r: VIter<(&'a String, &'a V)>) { unimplemented!() }
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }

pub trait VVec<T> {
    spec fn vseq(&self) -> Seq<T>;
    fn viter<'a>(&'a self) -> (r: VIter<&'a T>) ensures r.pos() == 0, r.seq() == refs::<T>(self.vseq());
}
impl<T> VVec<T> for Vec<T> {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn viter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vfind_mut<'a, T, F: FnMut(&T) -> bool>(v: &'a mut Vec<T>, f: F) -> (r: Option<&'a mut T>)
    requires forall|x: T| #[trigger] f.requires((&x,)),
    ensures match r {
        Some(m) => exists|i: int| 0 <= i < old(v)@.len() && f.ensures((&#[trigger] old(v)@[i],), true) && *m == old(v)@[i] && final(v)@ == old(v)@.update(i, *final(m)),
        None => *final(v) == *old(v) && forall|i: int| 0 <= i < old(v)@.len() ==> f.ensures((&#[trigger] old(v)@[i],), false),
    }
{ unimplemented!() }

pub trait VVecMut<T> {
    fn vreverse(&mut self);
    fn vextend(&mut self, o: Vec<T>);
}
impl<T> VVecMut<T> for Vec<T> {
    #[verifier::external_body]
    fn vreverse(&mut self) ensures final(self)@ == old(self)@.reverse() { unimplemented!() }
    #[verifier::external_body]
    fn vextend(&mut self, o: Vec<T>) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
}

// ---- equality ---------------------------------------------------------------
pub trait VEq<Rhs: ?Sized> {
    spec fn veq_spec(&self, o: &Rhs) -> bool;
    fn veq(&self, o: &Rhs) -> (r: bool) ensures r == self.veq_spec(o);
}
impl VEq<String> for String {
    open spec fn veq_spec(&self, o: &String) -> bool { self@ == o@ }
    #[verifier::external_body] fn veq(&self, o: &String) -> (r: bool) { self == o }
}
impl VEq<str> for str {
    open spec fn veq_spec(&self, o: &str) -> bool { self@ == o@ }
    #[verifier::external_body] fn veq(&self, o: &str) -> (r: bool) { self == o }
}
impl VEq<str> for String {
    open spec fn veq_spec(&self, o: &str) -> bool { self@ == o@ }
    #[verifier::external_body] fn veq(&self, o: &str) -> (r: bool) { self == o }
}
impl<'a> VEq<&'a str> for String {
    open spec fn veq_spec(&self, o: &&'a str) -> bool { self@ == o@ }
    #[verifier::external_body] fn veq(&self, o: &&'a str) -> (r: bool) { self == o }
}
impl<'a> VEq<String> for &'a str {
    open spec fn veq_spec(&self, o: &String) -> bool { self@ == o@ }
    #[verifier::external_body] fn veq(&self, o: &String) -> (r: bool) { self == o }
}
impl VEq<String> for str {
    open spec fn veq_spec(&self, o: &String) -> bool { self@ == o@ }
    #[verifier::external_body] fn veq(&self, o: &String) -> (r: bool) { self == o }
}
impl<'a, 'b, A: VEq<B> + ?Sized, B: ?Sized> VEq<&'b B> for &'a A {
    open spec fn veq_spec(&self, o: &&'b B) -> bool { (**self).veq_spec(*o) }
    fn veq(&self, o: &&'b B) -> (r: bool) { (**self).veq(*o) }
}
impl VEq<bool> for bool {
    open spec fn veq_spec(&self, o: &bool) -> bool { *self == *o }
    #[verifier::external_body] fn veq(&self, o: &bool) -> (r: bool) { self == o }
}
impl VEq<i64> for i64 {
    open spec fn veq_spec(&self, o: &i64) -> bool { *self == *o }
    #[verifier::external_body] fn veq(&self, o: &i64) -> (r: bool) { self == o }
}
impl VEq<usize> for usize {
    open spec fn veq_spec(&self, o: &usize) -> bool { *self == *o }
    #[verifier::external_body] fn veq(&self, o: &usize) -> (r: bool) { self == o }
}
impl VEq<char> for char {
    open spec fn veq_spec(&self, o: &char) -> bool { *self == *o }
    #[verifier::external_body] fn veq(&self, o: &char) -> (r: bool) { self == o }
}
impl VEq<Option<String>> for Option<String> {
    open spec fn veq_spec(&self, o: &Option<String>) -> bool { opt_v(*self) == opt_v(*o) }
    #[verifier::external_body] fn veq(&self, o: &Option<String>) -> (r: bool) { self == o }
}
impl VEq<Option<i64>> for Option<i64> {
    open spec fn veq_spec(&self, o: &Option<i64>) -> bool { *self == *o }
    #[verifier::external_body] fn veq(&self, o: &Option<i64>) -> (r: bool) { self == o }
}
impl VEq<Vec<String>> for Vec<String> {
    open spec fn veq_spec(&self, o: &Vec<String>) -> bool { strs(self@) == strs(o@) }
    #[verifier::external_body] fn veq(&self, o: &Vec<String>) -> (r: bool) { self == o }
}
pub open spec fn opt_v(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn strs(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }

// ---- clone ------------------------------------------------------------------
pub trait VClone: Sized {
    fn vclone(&self) -> (r: Self) ensures r == *self;
}
impl VClone for String { #[verifier::external_body] fn vclone(&self) -> (r: Self) { self.clone() } }
impl VClone for Vec<String> { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for Option<String> { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }

// ---- vec! ---------------------------------------------------------------------
pub fn vvec1<T>(a: T) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty().push(a) { let mut v = Vec::new(); v.push(a); v }
pub fn vvec2<T>(a: T, b: T) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty().push(a).push(b) { let mut v = Vec::new(); v.push(a); v.push(b); v }
pub fn vvec3<T>(a: T, b: T, c: T) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty().push(a).push(b).push(c) { let mut v = Vec::new(); v.push(a); v.push(b); v.push(c); v }
pub fn vvec4<T>(a: T, b: T, c: T, d: T) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty().push(a).push(b).push(c).push(d) { let mut v = Vec::new(); v.push(a); v.push(b); v.push(c); v.push(d); v }
pub fn vvec5<T>(a: T, b: T, c: T, d: T, e: T) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty().push(a).push(b).push(c).push(d).push(e) { let mut v = Vec::new(); v.push(a); v.push(b); v.push(c); v.push(d); v.push(e); v }
pub fn vvec6<T>(a: T, b: T, c: T, d: T, e: T, f: T) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty().push(a).push(b).push(c).push(d).push(e).push(f) { let mut v = Vec::new(); v.push(a); v.push(b); v.push(c); v.push(d); v.push(e); v.push(f); v }
// ---- conversions ------------------------------------------------------------
pub trait VInto<T>: Sized {
    spec fn vinto_spec(self) -> T;
    fn vinto(self) -> (r: T) ensures r == self.vinto_spec();
}
pub trait VStr {
    spec fn sv(&self) -> Seq<char>;
    fn as_ref(&self) -> (r: &str) ensures r@ == self.sv();
}
impl VStr for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn as_ref(&self) -> (r: &str) { self.as_str() }
}
impl<'a> VStr for &'a String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn as_ref(&self) -> (r: &str) { self.as_str() }
}
impl<'a> VStr for &'a str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn as_ref(&self) -> (r: &str) { self }
}

// ---- text -------------------------------------------------------------------
#[verifier::external_body]
pub fn vlit(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vcat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vcats(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub broadcast proof fn axiom_string_to_string(t: &String, r: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures::<String>(t, r) <==> t@ == r@,
{ }
pub trait VPush {
    fn vpush_str(&mut self, s: &str);
}
impl VPush for String {
    #[verifier::external_body] fn vpush_str(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
}
pub trait VDisp {
    spec fn dv(&self) -> Seq<char>;
    fn vd(&self) -> (r: String) ensures r@ == self.dv();
}
impl VDisp for String {
    open spec fn dv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vd(&self) -> (r: String) { unimplemented!() }
}
impl VDisp for str {
    open spec fn dv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vd(&self) -> (r: String) { unimplemented!() }
}
impl<'a, T: VDisp + ?Sized> VDisp for &'a T {
    open spec fn dv(&self) -> Seq<char> { (**self).dv() }
    #[verifier::external_body] fn vd(&self) -> (r: String) { unimplemented!() }
}
pub uninterp spec fn dec(i: i64) -> Seq<char>;
impl VDisp for i64 {
    open spec fn dv(&self) -> Seq<char> { dec(*self) }
    #[verifier::external_body] fn vd(&self) -> (r: String) { unimplemented!() }
}
/// s with every c replaced by t
pub open spec fn replaced(s: Seq<char>, c: char, t: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s } else {
        replaced(s.drop_last(), c, t) + (if s.last() == c { t } else { seq![s.last()] })
    }
}
pub open spec fn joined(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { joined(s.drop_last(), sep) + sep + s.last() }
}
pub trait VPat { spec fn pat(&self) -> Seq<char>; }
impl VPat for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }
impl VPat for String { open spec fn pat(&self) -> Seq<char> { self@ } }
impl VPat for str { open spec fn pat(&self) -> Seq<char> { self@ } }
impl<'a, T: VPat + ?Sized> VPat for &'a T { open spec fn pat(&self) -> Seq<char> { (**self).pat() } }
pub open spec fn is_prefix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub open spec fn is_suffix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub open spec fn lower_char(c: char) -> char {
    if c == 'A' { 'a' } else if c == 'B' { 'b' } else if c == 'C' { 'c' } else if c == 'D' { 'd' } else if c == 'E' { 'e' } else if c == 'F' { 'f' } else if c == 'G' { 'g' } else if c == 'H' { 'h' } else if c == 'I' { 'i' } else if c == 'J' { 'j' } else if c == 'K' { 'k' } else if c == 'L' { 'l' } else if c == 'M' { 'm' } else if c == 'N' { 'n' } else if c == 'O' { 'o' } else if c == 'P' { 'p' } else if c == 'Q' { 'q' } else if c == 'R' { 'r' } else if c == 'S' { 's' } else if c == 'T' { 't' } else if c == 'U' { 'u' } else if c == 'V' { 'v' } else if c == 'W' { 'w' } else if c == 'X' { 'x' } else if c == 'Y' { 'y' } else if c == 'Z' { 'z' } else { c }
}
pub open spec fn ascii_lower(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| lower_char(s[i])) }
/// Unicode White_Space
pub open spec fn is_ws(c: char) -> bool {
    '\t' <= c <= '\r' || c == ' ' || c == '\u{85}' || c == '\u{a0}' || c == '\u{1680}' || '\u{2000}' <= c <= '\u{200a}' || c == '\u{2028}' || c == '\u{2029}' || c == '\u{202f}' || c == '\u{205f}' || c == '\u{3000}'
}
pub open spec fn ltrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_ws(s[0]) { ltrim(s.skip(1)) } else { s } }
pub open spec fn rtrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_ws(s.last()) { rtrim(s.drop_last()) } else { s } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { rtrim(ltrim(s)) }
/// length in bytes, as UTF-8
pub open spec fn clen(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }
/// a is where the k-th character begins
pub open spec fn boundary(s: Seq<char>, a: int, k: int) -> bool { 0 <= k <= s.len() && blen(s.take(k)) == a }
pub trait VText {
    spec fn tv(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vstarts_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == is_prefix(p.pat(), self.tv()) { unimplemented!() }
    #[verifier::external_body]
    fn vends_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == is_suffix(p.pat(), self.tv()) { unimplemented!() }
    #[verifier::external_body]
    fn vto_lowercase(&self) -> (r: String) ensures r@ == lower(self.tv()) { unimplemented!() }
    #[verifier::external_body]
    fn vto_uppercase(&self) -> (r: String) ensures r@ == upper(self.tv()) { unimplemented!() }
    #[verifier::external_body]
    fn veq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (ascii_lower(self.tv()) == ascii_lower(o@)) { unimplemented!() }
    #[verifier::external_body]
    fn vtrim<'a>(&'a self) -> (r: &'a str) ensures r@ == trimmed(self.tv()) { unimplemented!() }
    fn vreplace(&self, c: char, t: &str) -> (r: String) ensures r@ == replaced(self.tv(), c, t@);
    #[verifier::external_body]
    fn vstarts_with_whitespace(&self) -> (r: bool) ensures r == (self.tv().len() > 0 && is_ws(self.tv()[0])) { unimplemented!() }
    #[verifier::external_body]
    fn vto_ascii_lowercase(&self) -> (r: String) ensures r@ == ascii_lower(self.tv()) { unimplemented!() }
    #[verifier::external_body]
    fn vblen(&self) -> (r: usize) ensures r == blen(self.tv()) { unimplemented!() }
    #[verifier::external_body]
    fn vis_empty(&self) -> (r: bool) ensures r == (self.tv().len() == 0) { unimplemented!() }
    /// panics unless `a` is where a character begins
    #[verifier::external_body]
    fn vslice_from<'a>(&'a self, a: usize) -> (r: &'a str)
        requires exists|k: int| boundary(self.tv(), a as int, k),
        ensures exists|k: int| #[trigger] boundary(self.tv(), a as int, k) && r@ == self.tv().skip(k),
    { unimplemented!() }
}
impl VText for str {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vreplace(&self, c: char, t: &str) -> (r: String) { unimplemented!() }
}
impl VText for String {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vreplace(&self, c: char, t: &str) -> (r: String) { unimplemented!() }
}
pub trait VJoin {
    spec fn jv(&self) -> Seq<Seq<char>>;
    fn vjoin(&self, sep: &str) -> (r: String) ensures r@ == joined(self.jv(), sep@);
}
impl VJoin for Vec<String> {
    open spec fn jv(&self) -> Seq<Seq<char>> { strs(self@) }
    #[verifier::external_body] fn vjoin(&self, sep: &str) -> (r: String) { unimplemented!() }
}

// ---- control ----------------------------------------------------------------
#[verifier::external_body]
pub fn vpanic() -> (r: !) requires false { panic!() }
pub fn vassert(b: bool) requires b { }
pub trait VDefault: Sized {
    spec fn is_default(r: Self) -> bool;
    fn vdefault() -> (r: Self) ensures Self::is_default(r);
}
impl VDefault for String {
    open spec fn is_default(r: String) -> bool { r@ == Seq::<char>::empty() }
    fn vdefault() -> (r: String) { String::new() }
}
impl VDefault for bool {
    open spec fn is_default(r: bool) -> bool { !r }
    fn vdefault() -> (r: bool) { false }
}
impl VDefault for usize {
    open spec fn is_default(r: usize) -> bool { r == 0 }
    fn vdefault() -> (r: usize) { 0 }
}
impl<T> VDefault for Vec<T> {
    open spec fn is_default(r: Vec<T>) -> bool { r@ == Seq::<T>::empty() }
    fn vdefault() -> (r: Vec<T>) { Vec::new() }
}
pub trait VOrDefault<T: VDefault>: Sized {
    spec fn held(self) -> Option<T>;
    fn vunwrap_or_default(self) -> (r: T)
        ensures match self.held() { Some(x) => r == x, None => T::is_default(r) };
}
impl<T: VDefault> VOrDefault<T> for Option<T> {
    open spec fn held(self) -> Option<T> { self }
    fn vunwrap_or_default(self) -> (r: T) { match self { Some(x) => x, None => T::vdefault() } }
}
impl<T: VDefault, E> VOrDefault<T> for Result<T, E> {
    open spec fn held(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    fn vunwrap_or_default(self) -> (r: T) { match self { Ok(x) => x, Err(_) => T::vdefault() } }
}
