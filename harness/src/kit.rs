//! Key and value types, node-size configurations, and the ledger of living objects.
use palmtree::{PalmTree, PointerKind, Tree64, TreeConfig, Unique};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt::{Debug, Formatter};
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU8, Ordering::SeqCst};

// ---------------------------------------------------------------- ledger
const CAP: usize = 1 << 24;
static TABLE: [AtomicU8; CAP] = [const { AtomicU8::new(0) }; CAP];
static NEXT: AtomicU32 = AtomicU32::new(1);
pub static KEYS: AtomicI64 = AtomicI64::new(0);
pub static VALS: AtomicI64 = AtomicI64::new(0);
pub static BAD: AtomicI64 = AtomicI64::new(0);
const KEY: u8 = 1;
const VAL: u8 = 2;
const DEAD: u8 = 3;

/// Start a new epoch. Objects of earlier epochs stay dead or leaked.
pub fn ledger_reset() {
    KEYS.store(0, SeqCst);
    VALS.store(0, SeqCst);
    BAD.store(0, SeqCst);
}
pub fn ledger_used() -> f64 {
    NEXT.load(SeqCst) as f64 / CAP as f64
}
fn born(kind: u8) -> u32 {
    let id = NEXT.fetch_add(1, SeqCst);
    if id as usize >= CAP {
        eprintln!("ledger full");
        std::process::exit(9);
    }
    TABLE[id as usize].store(kind, SeqCst);
    if kind == KEY { &KEYS } else { &VALS }.fetch_add(1, SeqCst);
    id
}
fn touch(id: u32, kind: u8, chk: u32, want: u32) -> bool {
    let ok = (id as usize) < CAP && TABLE[id as usize].load(SeqCst) == kind && chk == want;
    if !ok {
        BAD.fetch_add(1, SeqCst);
    }
    ok
}
fn died(id: u32, kind: u8, chk: u32, want: u32) {
    if chk != want || id as usize >= CAP || TABLE[id as usize].compare_exchange(kind, DEAD, SeqCst, SeqCst).is_err() {
        BAD.fetch_add(1, SeqCst);
        return;
    }
    if kind == KEY { &KEYS } else { &VALS }.fetch_sub(1, SeqCst);
}
fn mix(a: u32, b: u32, c: u32) -> u32 {
    (a ^ 0x9e37_79b9).wrapping_mul(0x85eb_ca6b) ^ b.wrapping_mul(0xc2b2_ae35).rotate_left(13) ^ c.wrapping_mul(0x27d4_eb2f).rotate_left(7)
}

// ---------------------------------------------------------------- faults and gates in user code
pub struct Injected;
thread_local! {
    static CMP_FUSE: Cell<i64> = const { Cell::new(-1) };
    static CLONE_FUSE: Cell<i64> = const { Cell::new(-1) };
    /// Called at every clone (0) of a key or value and every comparison (1) of keys on this thread,
    /// with how many of the kind there were.
    static CLONES: Cell<i64> = const { Cell::new(0) };
    static CMPS: Cell<i64> = const { Cell::new(0) };
    static GATE: RefCell<Option<Box<dyn Fn(i64, i64)>>> = const { RefCell::new(None) };
}
pub fn arm(cmp: i64, clone: i64) {
    CMP_FUSE.with(|c| c.set(cmp));
    CLONE_FUSE.with(|c| c.set(clone));
}
pub fn set_gate(g: Option<Box<dyn Fn(i64, i64)>>) {
    CLONES.with(|c| c.set(0));
    CMPS.with(|c| c.set(0));
    GATE.with(|c| *c.borrow_mut() = g);
}
fn burn(f: &'static std::thread::LocalKey<Cell<i64>>) {
    let n = f.with(|c| c.get());
    if n < 0 {
        return;
    }
    f.with(|c| c.set(n - 1));
    if n == 0 {
        crate::alloc::out_lib(|| std::panic::panic_any(Injected));
    }
}
fn on_clone() {
    burn(&CLONE_FUSE);
    gate(0, &CLONES)
}
fn on_cmp() {
    burn(&CMP_FUSE);
    gate(1, &CMPS)
}
fn gate(kind: i64, count: &'static std::thread::LocalKey<Cell<i64>>) {
    GATE.with(|g| {
        if let Some(g) = &*g.borrow() {
            let n = count.with(|c| c.replace(c.get() + 1));
            crate::alloc::out_lib(|| g(kind, n));
        }
    })
}

// ---------------------------------------------------------------- tokens
pub struct KTok {
    key: i32,
    tag: u32,
    id: u32,
    chk: u32,
}
impl KTok {
    fn new(key: i32, tag: u32) -> KTok {
        let id = born(KEY);
        KTok { key, tag, id, chk: mix(id, key as u32, tag) }
    }
    fn touch(&self) {
        touch(self.id, KEY, self.chk, mix(self.id, self.key as u32, self.tag));
    }
}
impl Drop for KTok {
    fn drop(&mut self) {
        died(self.id, KEY, self.chk, mix(self.id, self.key as u32, self.tag));
    }
}
impl Clone for KTok {
    fn clone(&self) -> KTok {
        self.touch();
        on_clone();
        KTok::new(self.key, self.tag)
    }
}
impl PartialEq for KTok {
    fn eq(&self, o: &KTok) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for KTok {}
impl PartialOrd for KTok {
    fn partial_cmp(&self, o: &KTok) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for KTok {
    fn cmp(&self, o: &KTok) -> Ordering {
        self.touch();
        o.touch();
        on_cmp();
        self.key.cmp(&o.key)
    }
}
impl Hash for KTok {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.touch();
        self.key.hash(h)
    }
}
impl Debug for KTok {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        self.touch();
        write!(f, "{}", self.key)
    }
}
pub struct VTok {
    val: i32,
    id: u32,
    chk: u32,
}
impl VTok {
    fn new(val: i32) -> VTok {
        let id = born(VAL);
        VTok { val, id, chk: mix(id, val as u32, 77) }
    }
    fn touch(&self) {
        touch(self.id, VAL, self.chk, mix(self.id, self.val as u32, 77));
    }
}
impl Drop for VTok {
    fn drop(&mut self) {
        died(self.id, VAL, self.chk, mix(self.id, self.val as u32, 77));
    }
}
impl Clone for VTok {
    fn clone(&self) -> VTok {
        self.touch();
        on_clone();
        VTok::new(self.val)
    }
}
impl PartialEq for VTok {
    fn eq(&self, o: &VTok) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for VTok {}
impl PartialOrd for VTok {
    fn partial_cmp(&self, o: &VTok) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for VTok {
    fn cmp(&self, o: &VTok) -> Ordering {
        self.touch();
        o.touch();
        burn(&CMP_FUSE);
        self.val.cmp(&o.val)
    }
}
impl Hash for VTok {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.touch();
        self.val.hash(h)
    }
}
impl Debug for VTok {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        self.touch();
        write!(f, "{}", self.val)
    }
}

// ---------------------------------------------------------------- element types
pub trait Ty: 'static {
    type K: Ord + Clone + Hash + Debug + 'static;
    type V: PartialOrd + Clone + Hash + Debug + 'static;
    const TAGS: bool = false;
    const LEDGER: bool = false;
    /// Debug output of keys and values is their number.
    const DBG: bool = true;
    const KMAX: i64 = 1 << 30;
    const VMAX: i64 = 1 << 24;
    const COPY: bool = false;
    fn k(k: i64, g: i64) -> Self::K;
    fn v(v: i64) -> Self::V;
    fn rk(k: &Self::K) -> (i64, i64);
    fn rv(v: &Self::V) -> i64;
    /// How two trees compare: -1, 0, 1, or 2 (not at all).
    fn order<C: TreeConfig<Self::K, Self::V>>(a: &PalmTree<Self::K, Self::V, C>, b: &PalmTree<Self::K, Self::V, C>) -> i64;
    /// Some values are incomparable, even with themselves.
    const PARTIAL: bool = false;
    /// The by-reference operations, for types that are Copy.
    fn ext_ref<C: TreeConfig<Self::K, Self::V>>(_t: &mut PalmTree<Self::K, Self::V, C>, _s: &[(Self::K, Self::V)]) {
        panic!("not Copy")
    }
    fn add_ref<C: TreeConfig<Self::K, Self::V>>(
        _t: PalmTree<Self::K, Self::V, C>,
        _u: &PalmTree<Self::K, Self::V, C>,
        _alien: bool,
        _assign: bool,
    ) -> PalmTree<Self::K, Self::V, C> {
        panic!("not Copy")
    }
}
macro_rules! total {
    () => {
        fn order<C: TreeConfig<Self::K, Self::V>>(a: &PalmTree<Self::K, Self::V, C>, b: &PalmTree<Self::K, Self::V, C>) -> i64 {
            let ord = a.cmp(b);
            match a.partial_cmp(b) == Some(ord) {
                true => ord as i64,
                false => 7,
            }
        }
    };
}
macro_rules! copy_ops {
    () => {
        const COPY: bool = true;
        fn ext_ref<C: TreeConfig<Self::K, Self::V>>(t: &mut PalmTree<Self::K, Self::V, C>, s: &[(Self::K, Self::V)]) {
            t.extend(s.iter().map(|p| (&p.0, &p.1)))
        }
        fn add_ref<C: TreeConfig<Self::K, Self::V>>(
            mut t: PalmTree<Self::K, Self::V, C>,
            u: &PalmTree<Self::K, Self::V, C>,
            alien: bool,
            assign: bool,
        ) -> PalmTree<Self::K, Self::V, C> {
            if alien && u.len() % 2 == 1 {
                let a: PalmTree<Self::K, Self::V, C67<palmtree::SyncShared>> = u.iter().map(|(k, v)| (*k, *v)).collect();
                if assign {
                    t += &a;
                    t
                } else {
                    t + &a
                }
            } else if alien {
                let a: PalmTree<Self::K, Self::V, C54<Unique>> = u.iter().map(|(k, v)| (*k, *v)).collect();
                if assign {
                    t += &a;
                    t
                } else {
                    t + &a
                }
            } else if assign {
                t += u;
                t
            } else {
                t + u
            }
        }
    };
}
pub struct Int;
impl Ty for Int {
    total!();
    type K = u32;
    type V = u32;
    fn k(k: i64, _: i64) -> u32 {
        k as u32
    }
    fn v(v: i64) -> u32 {
        v as u32
    }
    fn rk(k: &u32) -> (i64, i64) {
        (*k as i64, 0)
    }
    fn rv(v: &u32) -> i64 {
        *v as i64
    }
    copy_ops!();
}
pub struct Tok;
impl Ty for Tok {
    total!();
    type K = KTok;
    type V = VTok;
    const TAGS: bool = true;
    const LEDGER: bool = true;
    fn k(k: i64, g: i64) -> KTok {
        KTok::new(k as i32, g as u32)
    }
    fn v(v: i64) -> VTok {
        VTok::new(v as i32)
    }
    fn rk(k: &KTok) -> (i64, i64) {
        k.touch();
        (k.key as i64, k.tag as i64)
    }
    fn rv(v: &VTok) -> i64 {
        v.touch();
        v.val as i64
    }
}
/// A zero-sized value whose copies are counted.
pub struct ZTok(());
impl ZTok {
    fn new() -> ZTok {
        VALS.fetch_add(1, SeqCst);
        ZTok(())
    }
}
impl Drop for ZTok {
    fn drop(&mut self) {
        if VALS.fetch_sub(1, SeqCst) <= 0 {
            BAD.fetch_add(1, SeqCst);
        }
    }
}
impl Clone for ZTok {
    fn clone(&self) -> ZTok {
        on_clone();
        ZTok::new()
    }
}
impl PartialEq for ZTok {
    fn eq(&self, _: &ZTok) -> bool {
        true
    }
}
impl Eq for ZTok {}
impl PartialOrd for ZTok {
    fn partial_cmp(&self, o: &ZTok) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for ZTok {
    fn cmp(&self, _: &ZTok) -> Ordering {
        burn(&CMP_FUSE);
        Ordering::Equal
    }
}
impl Hash for ZTok {
    fn hash<H: Hasher>(&self, _: &mut H) {}
}
impl Debug for ZTok {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "0")
    }
}
pub struct TokZ;
impl Ty for TokZ {
    total!();
    type K = KTok;
    type V = ZTok;
    const TAGS: bool = true;
    const LEDGER: bool = true;
    const VMAX: i64 = 1;
    fn k(k: i64, g: i64) -> KTok {
        KTok::new(k as i32, g as u32)
    }
    fn v(_: i64) -> ZTok {
        ZTok::new()
    }
    fn rk(k: &KTok) -> (i64, i64) {
        k.touch();
        (k.key as i64, k.tag as i64)
    }
    fn rv(_: &ZTok) -> i64 {
        0
    }
}
pub struct Str;
impl Ty for Str {
    total!();
    type K = String;
    type V = String;
    const DBG: bool = false;
    fn k(k: i64, _: i64) -> String {
        format!("{:012}", k)
    }
    fn v(v: i64) -> String {
        format!("{:09}", v)
    }
    fn rk(k: &String) -> (i64, i64) {
        (k.parse().unwrap_or(-7), 0)
    }
    fn rv(v: &String) -> i64 {
        v.parse().unwrap_or(-7)
    }
}
macro_rules! aligned {
    ($n:ident, $a:literal) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        #[repr(align($a))]
        pub struct $n(u32);
        impl Debug for $n {
            fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}", self.0)
            }
        }
        impl $n {
            fn read(&self) -> i64 {
                if (self as *const $n as usize) % $a != 0 {
                    return -5;
                }
                self.0 as i64
            }
        }
    };
}
aligned!(A32, 32);
aligned!(A64, 64);
aligned!(A128, 128);
/// Over-aligned values.
pub struct AlV;
impl Ty for AlV {
    total!();
    type K = u32;
    type V = A64;
    fn k(k: i64, _: i64) -> u32 {
        k as u32
    }
    fn v(v: i64) -> A64 {
        A64(v as u32)
    }
    fn rk(k: &u32) -> (i64, i64) {
        (*k as i64, 0)
    }
    fn rv(v: &A64) -> i64 {
        v.read()
    }
    copy_ops!();
}
/// Over-aligned keys and values.
pub struct AlK;
impl Ty for AlK {
    total!();
    type K = A128;
    type V = A32;
    fn k(k: i64, _: i64) -> A128 {
        A128(k as u32)
    }
    fn v(v: i64) -> A32 {
        A32(v as u32)
    }
    fn rk(k: &A128) -> (i64, i64) {
        (k.read(), 0)
    }
    fn rv(v: &A32) -> i64 {
        v.read()
    }
    copy_ops!();
}
/// Zero-sized values.
pub struct Zv;
impl Ty for Zv {
    total!();
    type K = u16;
    type V = ();
    const DBG: bool = false;
    const KMAX: i64 = 60000;
    const VMAX: i64 = 1;
    fn k(k: i64, _: i64) -> u16 {
        k as u16
    }
    fn v(_: i64) {}
    fn rk(k: &u16) -> (i64, i64) {
        (*k as i64, 0)
    }
    fn rv(_: &()) -> i64 {
        0
    }
    copy_ops!();
}
/// Zero-sized keys: at most one entry.
pub struct Zk;
impl Ty for Zk {
    total!();
    type K = ();
    type V = String;
    const DBG: bool = false;
    const KMAX: i64 = 1;
    fn k(_: i64, _: i64) {}
    fn v(v: i64) -> String {
        format!("{:09}", v)
    }
    fn rk(_: &()) -> (i64, i64) {
        (0, 0)
    }
    fn rv(v: &String) -> i64 {
        v.parse().unwrap_or(-7)
    }
}
pub struct Byte;
impl Ty for Byte {
    total!();
    type K = u8;
    type V = u8;
    const KMAX: i64 = 256;
    const VMAX: i64 = 256;
    fn k(k: i64, _: i64) -> u8 {
        k as u8
    }
    fn v(v: i64) -> u8 {
        v as u8
    }
    fn rk(k: &u8) -> (i64, i64) {
        (*k as i64, 0)
    }
    fn rv(v: &u8) -> i64 {
        *v as i64
    }
    copy_ops!();
}
/// Large elements; key order is by the last word.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Wide([u64; 5]);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Wider(u64, [u64; 20]);
impl Debug for Wide {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0[4])
    }
}
pub struct Big;
impl Ty for Big {
    total!();
    type K = Wide;
    type V = Wider;
    const DBG: bool = false;
    fn k(k: i64, _: i64) -> Wide {
        Wide([7, 7, 7, 7, k as u64])
    }
    fn v(v: i64) -> Wider {
        Wider(v as u64, [v as u64; 20])
    }
    fn rk(k: &Wide) -> (i64, i64) {
        (if k.0[..4] == [7; 4] { k.0[4] as i64 } else { -5 }, 0)
    }
    fn rv(v: &Wider) -> i64 {
        if v.1 == [v.0; 20] {
            v.0 as i64
        } else {
            -5
        }
    }
    copy_ops!();
}
/// Signed keys ordered in reverse, to exercise a non-natural order.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Down(i32);
impl PartialOrd for Down {
    fn partial_cmp(&self, o: &Down) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Down {
    fn cmp(&self, o: &Down) -> Ordering {
        o.0.cmp(&self.0)
    }
}
pub struct Rev;
impl Ty for Rev {
    total!();
    type K = Down;
    type V = Option<Box<u32>>;
    const DBG: bool = false;
    fn k(k: i64, _: i64) -> Down {
        Down(1000 - k as i32)
    }
    fn v(v: i64) -> Option<Box<u32>> {
        if v == 0 {
            None
        } else {
            Some(Box::new(v as u32))
        }
    }
    fn rk(k: &Down) -> (i64, i64) {
        (1000 - k.0 as i64, 0)
    }
    fn rv(v: &Option<Box<u32>>) -> i64 {
        v.as_ref().map_or(0, |b| **b as i64)
    }
}

/// Values of which some (multiples of five) equal nothing and compare with nothing, as a NaN does.
#[derive(Clone, Copy, Hash)]
pub struct Odd(u32);
impl Odd {
    fn odd(&self) -> bool {
        self.0 % 5 == 0
    }
}
impl Debug for Odd {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl PartialEq for Odd {
    fn eq(&self, o: &Odd) -> bool {
        !self.odd() && self.0 == o.0
    }
}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Odd) -> Option<Ordering> {
        if self.odd() || o.odd() {
            None
        } else {
            self.0.partial_cmp(&o.0)
        }
    }
}
pub struct Par;
impl Ty for Par {
    type K = u32;
    type V = Odd;
    const PARTIAL: bool = true;
    fn order<C: TreeConfig<Self::K, Self::V>>(a: &PalmTree<Self::K, Self::V, C>, b: &PalmTree<Self::K, Self::V, C>) -> i64 {
        a.partial_cmp(b).map_or(2, |o| o as i64)
    }
    fn k(k: i64, _: i64) -> u32 {
        k as u32
    }
    fn v(v: i64) -> Odd {
        Odd(v as u32)
    }
    fn rk(k: &u32) -> (i64, i64) {
        (*k as i64, 0)
    }
    fn rv(v: &Odd) -> i64 {
        v.0 as i64
    }
}

// ---------------------------------------------------------------- node sizes
macro_rules! cfgs {
    ($($n:ident: $b:ident, $l:ident;)*) => { $(
        pub struct $n<P: PointerKind>(PhantomData<P>);
        impl<K, V, P: PointerKind> TreeConfig<K, V> for $n<P> {
            type BranchSize = typenum::$b;
            type LeafSize = typenum::$l;
            type PointerKind = P;
        }
    )* };
}
cfgs! {
    C44: U4, U4; C45: U4, U5; C54: U5, U4; C55: U5, U5; C66: U6, U6; C67: U6, U7; C76: U7, U6;
    C4x16: U4, U16; C7x16: U7, U16; C16x5: U16, U5; C5x64: U5, U64; C64x4: U64, U4; C33: U33, U31;
    C300: U300, U300; C5x512: U5, U512; C130x4: U130, U4; C512x4: U512, U4;
}
pub type C64<P> = Tree64<P>;
