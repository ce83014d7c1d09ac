//! Types on which `Collectable` is derived; the generated traversals are analysed, never run.
#![allow(dead_code, non_camel_case_types, non_snake_case, non_upper_case_globals, clippy::all)]

use dumpster::{sync, unsync, Collectable};
use std::cell::{Cell, OnceCell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::marker::PhantomData;
use std::sync::Mutex;

// ---- structs
#[derive(Collectable)]
pub struct Unit;

#[derive(Collectable)]
pub struct EmptyNamed {}

#[derive(Collectable)]
pub struct EmptyTuple();

#[derive(Collectable)]
pub struct OneNamed {
    only: unsync::Gc<u8>,
}

#[derive(Collectable)]
pub struct OneTuple(unsync::Gc<u8>);

#[derive(Collectable)]
pub struct Named {
    pub first: unsync::Gc<u8>,
    second: u32,
    pub(crate) third: Option<unsync::Gc<String>>,
    fourth: RefCell<Vec<unsync::Gc<Named>>>,
}

#[derive(Collectable)]
pub struct Tuple(pub unsync::Gc<u8>, u32, Option<unsync::Gc<String>>, pub RefCell<Vec<unsync::Gc<Tuple>>>);

#[derive(Collectable)]
pub struct Sync {
    a: sync::Gc<u8>,
    b: Mutex<Option<sync::Gc<Sync>>>,
    c: String,
}

#[derive(Collectable)]
pub struct Mixed(unsync::Gc<u8>, sync::Gc<u8>);

#[derive(Collectable)]
pub struct SameTypes {
    a: unsync::Gc<u8>,
    b: unsync::Gc<u8>,
    c: unsync::Gc<u8>,
    d: unsync::Gc<u8>,
}

#[derive(Collectable)]
pub struct Wide(
    u8,
    unsync::Gc<u8>,
    u16,
    unsync::Gc<u16>,
    u32,
    unsync::Gc<u32>,
    u64,
    unsync::Gc<u64>,
    i8,
    unsync::Gc<i8>,
    i16,
    unsync::Gc<i16>,
);

#[derive(Collectable)]
pub struct Plain {
    a: u8,
    b: bool,
    c: char,
    d: f64,
    e: String,
}

#[derive(Collectable)]
pub struct Containers {
    a: Vec<unsync::Gc<u8>>,
    b: HashMap<u32, unsync::Gc<u8>>,
    c: BTreeMap<String, Vec<unsync::Gc<u8>>>,
    d: Box<[unsync::Gc<u8>]>,
    e: [unsync::Gc<u8>; 3],
    f: (unsync::Gc<u8>, u8),
    g: OnceCell<unsync::Gc<u8>>,
    h: Cell<u8>,
    i: Result<unsync::Gc<u8>, String>,
    j: fn(u8) -> u8,
    k: &'static str,
}

#[derive(Collectable)]
pub struct Nested {
    a: Named,
    b: Tuple,
    c: Shapes,
    d: Generic<Unit>,
}

#[derive(Collectable)]
pub struct Unsized {
    a: unsync::Gc<u8>,
    tail: [unsync::Gc<u8>],
}

#[derive(Collectable)]
pub struct UnsizedTuple(unsync::Gc<u8>, str);

// ---- unusual names
#[derive(Collectable)]
pub struct Names {
    visitor: unsync::Gc<u8>,
    field0: unsync::Gc<u8>,
    field1: unsync::Gc<u8>,
    r#type: unsync::Gc<u8>,
    r#match: unsync::Gc<u8>,
    _unused: unsync::Gc<u8>,
    accept: unsync::Gc<u8>,
}

#[derive(Collectable)]
pub struct r#struct {
    a: unsync::Gc<u8>,
}

pub mod shadow {
    use dumpster::Collectable;
    pub struct Result;
    pub struct Ok;
    pub struct Err;
    pub struct Visitor;
    pub struct Option;
    #[derive(dumpster::Collectable)]
    pub struct Shadowed {
        a: dumpster::unsync::Gc<u8>,
        b: dumpster::unsync::Gc<u8>,
    }
    #[derive(Collectable)]
    pub enum Inner {
        Ok(dumpster::unsync::Gc<u8>),
        Err(dumpster::unsync::Gc<u16>, u8),
        Result,
    }
}

// ---- generics
#[derive(Collectable)]
pub struct Generic<T> {
    value: T,
}

#[derive(Collectable)]
pub struct Two<T, U>(T, U);

#[derive(Collectable)]
pub struct Bounded<T: Clone, U>
where
    U: std::fmt::Debug,
{
    a: T,
    b: Vec<U>,
    c: Option<Box<T>>,
}

#[derive(Collectable)]
pub struct Defaulted<T = u8, const N: usize = 2> {
    a: [T; N],
    b: T,
}

#[derive(Collectable)]
pub struct ConstOnly<const N: usize>([unsync::Gc<u8>; N]);

#[derive(Collectable)]
pub struct Life<'a, T> {
    a: std::borrow::Cow<'a, u32>,
    b: T,
    c: PhantomData<T>,
}

#[derive(Collectable)]
pub struct MaybeUnsized<T: ?Sized> {
    a: unsync::Gc<u8>,
    b: Box<T>,
}

#[derive(Collectable)]
pub struct Param<V>(V, Option<V>);

#[derive(Collectable)]
pub struct Deep<T> {
    a: Option<Vec<Option<Box<T>>>>,
    b: (T, (T, T)),
}

#[derive(Collectable)]
pub struct Holder<T: Collectable + 'static> {
    a: unsync::Gc<T>,
    b: Option<unsync::Gc<T>>,
}

// ---- enums
#[derive(Collectable)]
pub enum Void {}

#[derive(Collectable)]
pub enum Single {
    Only(unsync::Gc<u8>),
}

#[derive(Collectable)]
pub enum SingleUnit {
    Only,
}

#[derive(Collectable)]
pub enum Fieldless {
    A,
    B,
    C,
}

#[derive(Collectable)]
pub enum Shapes {
    Unit,
    Tuple0(),
    Tuple1(unsync::Gc<u8>),
    Tuple3(unsync::Gc<u8>, u32, unsync::Gc<u16>),
    Named0 {},
    Named1 { a: unsync::Gc<u8> },
    Named3 { a: unsync::Gc<u8>, b: u32, c: RefCell<unsync::Gc<u16>> },
    Last,
}

#[derive(Collectable)]
#[repr(u8)]
pub enum Numbered {
    A(unsync::Gc<u8>) = 3,
    B { x: unsync::Gc<u8>, y: unsync::Gc<u8> } = 7,
    C = 200,
}

#[derive(Collectable)]
#[repr(i16)]
pub enum Negative {
    A(unsync::Gc<u8>, u8) = -5,
    B = 0,
    C(u8, unsync::Gc<u8>) = 9,
}

#[derive(Collectable)]
#[non_exhaustive]
pub enum Open {
    A(unsync::Gc<u8>),
    B(unsync::Gc<u8>),
}

#[derive(Collectable)]
pub enum List {
    Nil,
    Cons(u8, Box<List>),
    Shared(unsync::Gc<List>),
}

#[derive(Collectable)]
pub enum Tree<K, V> {
    Leaf(V),
    Node { key: K, left: Box<Tree<K, V>>, right: Box<Tree<K, V>>, extra: Vec<V> },
    Empty,
}

#[derive(Collectable)]
pub enum Either<L, R = L>
where
    L: Clone,
{
    Left(L),
    Right(R),
    Both(L, R),
    Marked(PhantomData<L>),
}

#[derive(Collectable)]
pub enum SyncNodes {
    Leaf,
    One(sync::Gc<u8>),
    Many { left: Option<sync::Gc<SyncNodes>>, right: Option<sync::Gc<SyncNodes>>, name: String },
}

#[derive(Collectable)]
pub enum Strange {
    r#fn(unsync::Gc<u8>),
    field0 { field1: unsync::Gc<u8>, field0: unsync::Gc<u16> },
    visitor { visitor: unsync::Gc<u8>, r#in: unsync::Gc<u8> },
}

#[derive(Collectable)]
pub enum Swapped {
    A { b: unsync::Gc<u8>, a: unsync::Gc<u16> },
    B { a: unsync::Gc<u16>, b: unsync::Gc<u8> },
}

#[derive(Collectable)]
pub enum Big {
    V0(u8, unsync::Gc<u8>, unsync::Gc<u8>, u8, unsync::Gc<u8>),
    V1 { a: u8, b: unsync::Gc<u8>, c: unsync::Gc<u8>, d: u8, e: unsync::Gc<u8> },
    V2(unsync::Gc<u8>, unsync::Gc<u8>),
    V3 { z: unsync::Gc<u8> },
    V4(Vec<Big>),
    V5(Option<Box<Big>>, unsync::Gc<Big>),
    V6,
    V7 { y: (unsync::Gc<u8>, unsync::Gc<u8>), x: [unsync::Gc<u8>; 2] },
}

macro_rules! inside_macro {
    ($n:ident, $($f:ident : $t:ty),*) => {
        #[derive(Collectable)]
        pub struct $n { $($f: $t),* }
    };
}
inside_macro!(FromMacro, a: unsync::Gc<u8>, b: Vec<unsync::Gc<u8>>, c: u8);

pub fn inside_function() {
    #[derive(Collectable)]
    struct Local<T>(T, unsync::Gc<u8>);
    #[derive(Collectable)]
    enum LocalEnum {
        A(unsync::Gc<u8>),
        B,
    }
}

// ---- every kind of field type, and every number of fields
#[derive(Collectable)]
pub struct EveryType {
    f0: u8,
    f1: u16,
    f2: u32,
    f3: u64,
    f4: u128,
    f5: usize,
    f6: i8,
    f7: i16,
    f8: i32,
    f9: i64,
    f10: i128,
    f11: isize,
    f12: bool,
    f13: char,
    f14: f32,
    f15: f64,
    f16: String,
    f17: std::path::PathBuf,
    f18: std::ffi::OsString,
    f19: (),
    f20: std::sync::atomic::AtomicUsize,
    f21: std::num::NonZeroU32,
    f22: std::any::TypeId,
    f23: std::collections::hash_map::RandomState,
    f24: std::rc::Rc<str>,
    f25: &'static str,
    f26: &'static [u8],
    f27: PhantomData<unsync::Gc<u8>>,
    f28: Box<unsync::Gc<u8>>,
    f29: Option<unsync::Gc<u8>>,
    f30: Result<unsync::Gc<u8>,unsync::Gc<u16>>,
    f31: std::borrow::Cow<'static,u8>,
    f32: Cell<u8>,
    f33: OnceCell<unsync::Gc<u8>>,
    f34: RefCell<unsync::Gc<u8>>,
    f35: Mutex<unsync::Gc<u8>>,
    f36: std::sync::RwLock<unsync::Gc<u8>>,
    f37: Vec<unsync::Gc<u8>>,
    f38: std::collections::VecDeque<unsync::Gc<u8>>,
    f39: std::collections::LinkedList<unsync::Gc<u8>>,
    f40: std::collections::HashSet<u8>,
    f41: std::collections::BinaryHeap<u8>,
    f42: std::collections::BTreeSet<u8>,
    f43: HashMap<u8,unsync::Gc<u8>>,
    f44: BTreeMap<u8,unsync::Gc<u8>>,
    f45: [unsync::Gc<u8>;4],
    f46: (unsync::Gc<u8>,),
    f47: (u8,unsync::Gc<u8>,u8),
    f48: fn(u8)->u8,
    f49: extern "C" fn(),
    f50: unsync::Gc<u8>,
    f51: sync::Gc<u8>,
    f52: unsync::Gc<[u8]>,
    f53: Unit,
    f54: OneTuple,
    f55: Single,
}

#[derive(Collectable)]
pub struct EveryTypeTuple(
    u8,
    u16,
    u32,
    u64,
    u128,
    usize,
    i8,
    i16,
    i32,
    i64,
    i128,
    isize,
    bool,
    char,
    f32,
    f64,
    String,
    std::path::PathBuf,
    std::ffi::OsString,
    (),
    std::sync::atomic::AtomicUsize,
    std::num::NonZeroU32,
    std::any::TypeId,
    std::collections::hash_map::RandomState,
    std::rc::Rc<str>,
    &'static str,
    &'static [u8],
    PhantomData<unsync::Gc<u8>>,
    Box<unsync::Gc<u8>>,
    Option<unsync::Gc<u8>>,
    Result<unsync::Gc<u8>,unsync::Gc<u16>>,
    std::borrow::Cow<'static,u8>,
    Cell<u8>,
    OnceCell<unsync::Gc<u8>>,
    RefCell<unsync::Gc<u8>>,
    Mutex<unsync::Gc<u8>>,
    std::sync::RwLock<unsync::Gc<u8>>,
    Vec<unsync::Gc<u8>>,
    std::collections::VecDeque<unsync::Gc<u8>>,
    std::collections::LinkedList<unsync::Gc<u8>>,
    std::collections::HashSet<u8>,
    std::collections::BinaryHeap<u8>,
    std::collections::BTreeSet<u8>,
    HashMap<u8,unsync::Gc<u8>>,
    BTreeMap<u8,unsync::Gc<u8>>,
    [unsync::Gc<u8>;4],
    (unsync::Gc<u8>,),
    (u8,unsync::Gc<u8>,u8),
    fn(u8)->u8,
    extern "C" fn(),
    unsync::Gc<u8>,
    sync::Gc<u8>,
    unsync::Gc<[u8]>,
    Unit,
    OneTuple,
    Single,
);

#[derive(Collectable)]
pub enum EveryTypeEnum {
    Named {
        f0: u8,
        f1: u16,
        f2: u32,
        f3: u64,
        f4: u128,
        f5: usize,
        f6: i8,
        f7: i16,
        f8: i32,
        f9: i64,
        f10: i128,
        f11: isize,
        f12: bool,
        f13: char,
        f14: f32,
        f15: f64,
        f16: String,
        f17: std::path::PathBuf,
        f18: std::ffi::OsString,
        f19: (),
        f20: std::sync::atomic::AtomicUsize,
        f21: std::num::NonZeroU32,
        f22: std::any::TypeId,
        f23: std::collections::hash_map::RandomState,
        f24: std::rc::Rc<str>,
        f25: &'static str,
        f26: &'static [u8],
        f27: PhantomData<unsync::Gc<u8>>,
        f28: Box<unsync::Gc<u8>>,
        f29: Option<unsync::Gc<u8>>,
        f30: Result<unsync::Gc<u8>,unsync::Gc<u16>>,
        f31: std::borrow::Cow<'static,u8>,
        f32: Cell<u8>,
        f33: OnceCell<unsync::Gc<u8>>,
        f34: RefCell<unsync::Gc<u8>>,
        f35: Mutex<unsync::Gc<u8>>,
        f36: std::sync::RwLock<unsync::Gc<u8>>,
        f37: Vec<unsync::Gc<u8>>,
        f38: std::collections::VecDeque<unsync::Gc<u8>>,
        f39: std::collections::LinkedList<unsync::Gc<u8>>,
        f40: std::collections::HashSet<u8>,
        f41: std::collections::BinaryHeap<u8>,
        f42: std::collections::BTreeSet<u8>,
        f43: HashMap<u8,unsync::Gc<u8>>,
        f44: BTreeMap<u8,unsync::Gc<u8>>,
        f45: [unsync::Gc<u8>;4],
        f46: (unsync::Gc<u8>,),
        f47: (u8,unsync::Gc<u8>,u8),
        f48: fn(u8)->u8,
        f49: extern "C" fn(),
        f50: unsync::Gc<u8>,
        f51: sync::Gc<u8>,
        f52: unsync::Gc<[u8]>,
        f53: Unit,
        f54: OneTuple,
        f55: Single,
    },
    Tuple(
        u8,
        u16,
        u32,
        u64,
        u128,
        usize,
        i8,
        i16,
        i32,
        i64,
        i128,
        isize,
        bool,
        char,
        f32,
        f64,
        String,
        std::path::PathBuf,
        std::ffi::OsString,
        (),
        std::sync::atomic::AtomicUsize,
        std::num::NonZeroU32,
        std::any::TypeId,
        std::collections::hash_map::RandomState,
        std::rc::Rc<str>,
        &'static str,
        &'static [u8],
        PhantomData<unsync::Gc<u8>>,
        Box<unsync::Gc<u8>>,
        Option<unsync::Gc<u8>>,
        Result<unsync::Gc<u8>,unsync::Gc<u16>>,
        std::borrow::Cow<'static,u8>,
        Cell<u8>,
        OnceCell<unsync::Gc<u8>>,
        RefCell<unsync::Gc<u8>>,
        Mutex<unsync::Gc<u8>>,
        std::sync::RwLock<unsync::Gc<u8>>,
        Vec<unsync::Gc<u8>>,
        std::collections::VecDeque<unsync::Gc<u8>>,
        std::collections::LinkedList<unsync::Gc<u8>>,
        std::collections::HashSet<u8>,
        std::collections::BinaryHeap<u8>,
        std::collections::BTreeSet<u8>,
        HashMap<u8,unsync::Gc<u8>>,
        BTreeMap<u8,unsync::Gc<u8>>,
        [unsync::Gc<u8>;4],
        (unsync::Gc<u8>,),
        (u8,unsync::Gc<u8>,u8),
        fn(u8)->u8,
        extern "C" fn(),
        unsync::Gc<u8>,
        sync::Gc<u8>,
        unsync::Gc<[u8]>,
        Unit,
        OneTuple,
        Single,
    ),
    T0(u8),
    N0 { a: u8 },
    T1(u16),
    N1 { a: u16 },
    T2(u32),
    N2 { a: u32 },
    T3(u64),
    N3 { a: u64 },
    T4(u128),
    N4 { a: u128 },
    T5(usize),
    N5 { a: usize },
    T6(i8),
    N6 { a: i8 },
    T7(i16),
    N7 { a: i16 },
    T8(i32),
    N8 { a: i32 },
    T9(i64),
    N9 { a: i64 },
    T10(i128),
    N10 { a: i128 },
    T11(isize),
    N11 { a: isize },
    T12(bool),
    N12 { a: bool },
    T13(char),
    N13 { a: char },
    T14(f32),
    N14 { a: f32 },
    T15(f64),
    N15 { a: f64 },
    T16(String),
    N16 { a: String },
    T17(std::path::PathBuf),
    N17 { a: std::path::PathBuf },
    T18(std::ffi::OsString),
    N18 { a: std::ffi::OsString },
    T19(()),
    N19 { a: () },
    T20(std::sync::atomic::AtomicUsize),
    N20 { a: std::sync::atomic::AtomicUsize },
    T21(std::num::NonZeroU32),
    N21 { a: std::num::NonZeroU32 },
    T22(std::any::TypeId),
    N22 { a: std::any::TypeId },
    T23(std::collections::hash_map::RandomState),
    N23 { a: std::collections::hash_map::RandomState },
    T24(std::rc::Rc<str>),
    N24 { a: std::rc::Rc<str> },
    T25(&'static str),
    N25 { a: &'static str },
    T26(&'static [u8]),
    N26 { a: &'static [u8] },
    T27(PhantomData<unsync::Gc<u8>>),
    N27 { a: PhantomData<unsync::Gc<u8>> },
    T28(Box<unsync::Gc<u8>>),
    N28 { a: Box<unsync::Gc<u8>> },
    T29(Option<unsync::Gc<u8>>),
    N29 { a: Option<unsync::Gc<u8>> },
    T30(Result<unsync::Gc<u8>,unsync::Gc<u16>>),
    N30 { a: Result<unsync::Gc<u8>,unsync::Gc<u16>> },
    T31(std::borrow::Cow<'static,u8>),
    N31 { a: std::borrow::Cow<'static,u8> },
    T32(Cell<u8>),
    N32 { a: Cell<u8> },
    T33(OnceCell<unsync::Gc<u8>>),
    N33 { a: OnceCell<unsync::Gc<u8>> },
    T34(RefCell<unsync::Gc<u8>>),
    N34 { a: RefCell<unsync::Gc<u8>> },
    T35(Mutex<unsync::Gc<u8>>),
    N35 { a: Mutex<unsync::Gc<u8>> },
    T36(std::sync::RwLock<unsync::Gc<u8>>),
    N36 { a: std::sync::RwLock<unsync::Gc<u8>> },
    T37(Vec<unsync::Gc<u8>>),
    N37 { a: Vec<unsync::Gc<u8>> },
    T38(std::collections::VecDeque<unsync::Gc<u8>>),
    N38 { a: std::collections::VecDeque<unsync::Gc<u8>> },
    T39(std::collections::LinkedList<unsync::Gc<u8>>),
    N39 { a: std::collections::LinkedList<unsync::Gc<u8>> },
    T40(std::collections::HashSet<u8>),
    N40 { a: std::collections::HashSet<u8> },
    T41(std::collections::BinaryHeap<u8>),
    N41 { a: std::collections::BinaryHeap<u8> },
    T42(std::collections::BTreeSet<u8>),
    N42 { a: std::collections::BTreeSet<u8> },
    T43(HashMap<u8,unsync::Gc<u8>>),
    N43 { a: HashMap<u8,unsync::Gc<u8>> },
    T44(BTreeMap<u8,unsync::Gc<u8>>),
    N44 { a: BTreeMap<u8,unsync::Gc<u8>> },
    T45([unsync::Gc<u8>;4]),
    N45 { a: [unsync::Gc<u8>;4] },
    T46((unsync::Gc<u8>,)),
    N46 { a: (unsync::Gc<u8>,) },
    T47((u8,unsync::Gc<u8>,u8)),
    N47 { a: (u8,unsync::Gc<u8>,u8) },
    T48(fn(u8)->u8),
    N48 { a: fn(u8)->u8 },
    T49(extern "C" fn()),
    N49 { a: extern "C" fn() },
    T50(unsync::Gc<u8>),
    N50 { a: unsync::Gc<u8> },
    T51(sync::Gc<u8>),
    N51 { a: sync::Gc<u8> },
    T52(unsync::Gc<[u8]>),
    N52 { a: unsync::Gc<[u8]> },
    T53(Unit),
    N53 { a: Unit },
    T54(OneTuple),
    N54 { a: OneTuple },
    T55(Single),
    N55 { a: Single },
}

#[derive(Collectable)]
pub struct N1<T, U> {
    a0: (T, U),
}

#[derive(Collectable)]
pub struct T1<T, U>(
    (T, U),
);

#[derive(Collectable)]
pub struct N2<T, U> {
    a0: T,
    a1: (T, U),
}

#[derive(Collectable)]
pub struct T2<T, U>(
    T,
    (T, U),
);

#[derive(Collectable)]
pub struct N3<T, U> {
    a0: T,
    a1: U,
    a2: u8,
}

#[derive(Collectable)]
pub struct T3<T, U>(
    T,
    U,
    u8,
);

#[derive(Collectable)]
pub struct N4<T, U> {
    a0: T,
    a1: Option<T>,
    a2: U,
    a3: u8,
}

#[derive(Collectable)]
pub struct T4<T, U>(
    T,
    Option<T>,
    U,
    u8,
);

#[derive(Collectable)]
pub struct N5<T, U> {
    a0: T,
    a1: Vec<unsync::Gc<u16>>,
    a2: U,
    a3: T,
    a4: u8,
}

#[derive(Collectable)]
pub struct T5<T, U>(
    T,
    Vec<unsync::Gc<u16>>,
    U,
    T,
    u8,
);

#[derive(Collectable)]
pub struct N6<T, U> {
    a0: T,
    a1: U,
    a2: Vec<unsync::Gc<u16>>,
    a3: U,
    a4: T,
    a5: u8,
}

#[derive(Collectable)]
pub struct T6<T, U>(
    T,
    U,
    Vec<unsync::Gc<u16>>,
    U,
    T,
    u8,
);

#[derive(Collectable)]
pub struct N7<T, U> {
    a0: T,
    a1: unsync::Gc<u8>,
    a2: U,
    a3: U,
    a4: Option<T>,
    a5: T,
    a6: u8,
}

#[derive(Collectable)]
pub struct T7<T, U>(
    T,
    unsync::Gc<u8>,
    U,
    U,
    Option<T>,
    T,
    u8,
);

#[derive(Collectable)]
pub struct N8<T, U> {
    a0: T,
    a1: u8,
    a2: unsync::Gc<u8>,
    a3: U,
    a4: U,
    a5: Option<T>,
    a6: T,
    a7: u8,
}

#[derive(Collectable)]
pub struct T8<T, U>(
    T,
    u8,
    unsync::Gc<u8>,
    U,
    U,
    Option<T>,
    T,
    u8,
);

#[derive(Collectable)]
pub struct N9<T, U> {
    a0: T,
    a1: T,
    a2: u8,
    a3: unsync::Gc<u8>,
    a4: U,
    a5: Vec<unsync::Gc<u16>>,
    a6: Option<T>,
    a7: T,
    a8: u8,
}

#[derive(Collectable)]
pub struct T9<T, U>(
    T,
    T,
    u8,
    unsync::Gc<u8>,
    U,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    u8,
);

#[derive(Collectable)]
pub struct N10<T, U> {
    a0: T,
    a1: Option<T>,
    a2: T,
    a3: u8,
    a4: unsync::Gc<u8>,
    a5: U,
    a6: Vec<unsync::Gc<u16>>,
    a7: Option<T>,
    a8: T,
    a9: u8,
}

#[derive(Collectable)]
pub struct T10<T, U>(
    T,
    Option<T>,
    T,
    u8,
    unsync::Gc<u8>,
    U,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    u8,
);

#[derive(Collectable)]
pub struct N11<T, U> {
    a0: T,
    a1: Vec<unsync::Gc<u16>>,
    a2: Option<T>,
    a3: T,
    a4: u8,
    a5: U,
    a6: U,
    a7: Vec<unsync::Gc<u16>>,
    a8: Option<T>,
    a9: T,
    a10: u8,
}

#[derive(Collectable)]
pub struct T11<T, U>(
    T,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    u8,
    U,
    U,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    u8,
);

#[derive(Collectable)]
pub struct N12<T, U> {
    a0: T,
    a1: U,
    a2: Vec<unsync::Gc<u16>>,
    a3: Option<T>,
    a4: T,
    a5: u8,
    a6: U,
    a7: U,
    a8: Vec<unsync::Gc<u16>>,
    a9: Option<T>,
    a10: T,
    a11: u8,
}

#[derive(Collectable)]
pub struct T12<T, U>(
    T,
    U,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    u8,
    U,
    U,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    u8,
);

#[derive(Collectable)]
pub struct N13<T, U> {
    a0: T,
    a1: unsync::Gc<u8>,
    a2: U,
    a3: Vec<unsync::Gc<u16>>,
    a4: Option<T>,
    a5: T,
    a6: U,
    a7: unsync::Gc<u8>,
    a8: U,
    a9: Vec<unsync::Gc<u16>>,
    a10: Option<T>,
    a11: T,
    a12: u8,
}

#[derive(Collectable)]
pub struct T13<T, U>(
    T,
    unsync::Gc<u8>,
    U,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    U,
    unsync::Gc<u8>,
    U,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    u8,
);

#[derive(Collectable)]
pub struct N16<T, U> {
    a0: T,
    a1: Option<T>,
    a2: T,
    a3: u8,
    a4: unsync::Gc<u8>,
    a5: U,
    a6: Vec<unsync::Gc<u16>>,
    a7: Option<T>,
    a8: U,
    a9: u8,
    a10: unsync::Gc<u8>,
    a11: U,
    a12: Vec<unsync::Gc<u16>>,
    a13: Option<T>,
    a14: T,
    a15: u8,
}

#[derive(Collectable)]
pub struct T16<T, U>(
    T,
    Option<T>,
    T,
    u8,
    unsync::Gc<u8>,
    U,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    U,
    u8,
    unsync::Gc<u8>,
    U,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    u8,
);

#[derive(Collectable)]
pub struct N17<T, U> {
    a0: T,
    a1: Vec<unsync::Gc<u16>>,
    a2: Option<T>,
    a3: T,
    a4: u8,
    a5: unsync::Gc<u8>,
    a6: U,
    a7: Vec<unsync::Gc<u16>>,
    a8: U,
    a9: T,
    a10: u8,
    a11: unsync::Gc<u8>,
    a12: U,
    a13: Vec<unsync::Gc<u16>>,
    a14: Option<T>,
    a15: T,
    a16: u8,
}

#[derive(Collectable)]
pub struct T17<T, U>(
    T,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    u8,
    unsync::Gc<u8>,
    U,
    Vec<unsync::Gc<u16>>,
    U,
    T,
    u8,
    unsync::Gc<u8>,
    U,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    u8,
);

#[derive(Collectable)]
pub struct N32<T, U> {
    a0: T,
    a1: u8,
    a2: unsync::Gc<u8>,
    a3: U,
    a4: Vec<unsync::Gc<u16>>,
    a5: Option<T>,
    a6: T,
    a7: u8,
    a8: unsync::Gc<u8>,
    a9: U,
    a10: Vec<unsync::Gc<u16>>,
    a11: Option<T>,
    a12: T,
    a13: u8,
    a14: unsync::Gc<u8>,
    a15: U,
    a16: U,
    a17: Option<T>,
    a18: T,
    a19: u8,
    a20: unsync::Gc<u8>,
    a21: U,
    a22: Vec<unsync::Gc<u16>>,
    a23: Option<T>,
    a24: T,
    a25: u8,
    a26: unsync::Gc<u8>,
    a27: U,
    a28: Vec<unsync::Gc<u16>>,
    a29: Option<T>,
    a30: T,
    a31: u8,
}

#[derive(Collectable)]
pub struct T32<T, U>(
    T,
    u8,
    unsync::Gc<u8>,
    U,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    u8,
    unsync::Gc<u8>,
    U,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    u8,
    unsync::Gc<u8>,
    U,
    U,
    Option<T>,
    T,
    u8,
    unsync::Gc<u8>,
    U,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    u8,
    unsync::Gc<u8>,
    U,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    u8,
);

#[derive(Collectable)]
pub struct N33<T, U> {
    a0: T,
    a1: T,
    a2: u8,
    a3: unsync::Gc<u8>,
    a4: U,
    a5: Vec<unsync::Gc<u16>>,
    a6: Option<T>,
    a7: T,
    a8: u8,
    a9: unsync::Gc<u8>,
    a10: U,
    a11: Vec<unsync::Gc<u16>>,
    a12: Option<T>,
    a13: T,
    a14: u8,
    a15: unsync::Gc<u8>,
    a16: U,
    a17: Vec<unsync::Gc<u16>>,
    a18: Option<T>,
    a19: T,
    a20: u8,
    a21: unsync::Gc<u8>,
    a22: U,
    a23: Vec<unsync::Gc<u16>>,
    a24: Option<T>,
    a25: T,
    a26: u8,
    a27: unsync::Gc<u8>,
    a28: U,
    a29: Vec<unsync::Gc<u16>>,
    a30: Option<T>,
    a31: T,
    a32: u8,
}

#[derive(Collectable)]
pub struct T33<T, U>(
    T,
    T,
    u8,
    unsync::Gc<u8>,
    U,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    u8,
    unsync::Gc<u8>,
    U,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    u8,
    unsync::Gc<u8>,
    U,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    u8,
    unsync::Gc<u8>,
    U,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    u8,
    unsync::Gc<u8>,
    U,
    Vec<unsync::Gc<u16>>,
    Option<T>,
    T,
    u8,
);

#[derive(Collectable)]
pub enum EveryCount<T, U> {
    N0 {
    },
    T0(
    ),
    U0,
    N1 {
        a0: u8,
    },
    T1(
        u8,
    ),
    U1,
    N2 {
        a0: T,
        a1: u8,
    },
    T2(
        T,
        u8,
    ),
    U2,
    N3 {
        a0: Option<T>,
        a1: T,
        a2: u8,
    },
    T3(
        Option<T>,
        T,
        u8,
    ),
    U3,
    N4 {
        a0: Vec<unsync::Gc<u16>>,
        a1: Option<T>,
        a2: T,
        a3: u8,
    },
    T4(
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
    ),
    U4,
    N5 {
        a0: U,
        a1: Vec<unsync::Gc<u16>>,
        a2: Option<T>,
        a3: T,
        a4: u8,
    },
    T5(
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
    ),
    U5,
    N6 {
        a0: unsync::Gc<u8>,
        a1: U,
        a2: Vec<unsync::Gc<u16>>,
        a3: Option<T>,
        a4: T,
        a5: u8,
    },
    T6(
        unsync::Gc<u8>,
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
    ),
    U6,
    N7 {
        a0: u8,
        a1: unsync::Gc<u8>,
        a2: U,
        a3: Vec<unsync::Gc<u16>>,
        a4: Option<T>,
        a5: T,
        a6: u8,
    },
    T7(
        u8,
        unsync::Gc<u8>,
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
    ),
    U7,
    N8 {
        a0: T,
        a1: u8,
        a2: unsync::Gc<u8>,
        a3: U,
        a4: Vec<unsync::Gc<u16>>,
        a5: Option<T>,
        a6: T,
        a7: u8,
    },
    T8(
        T,
        u8,
        unsync::Gc<u8>,
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
    ),
    U8,
    N9 {
        a0: Option<T>,
        a1: T,
        a2: u8,
        a3: unsync::Gc<u8>,
        a4: U,
        a5: Vec<unsync::Gc<u16>>,
        a6: Option<T>,
        a7: T,
        a8: u8,
    },
    T9(
        Option<T>,
        T,
        u8,
        unsync::Gc<u8>,
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
    ),
    U9,
    N10 {
        a0: Vec<unsync::Gc<u16>>,
        a1: Option<T>,
        a2: T,
        a3: u8,
        a4: unsync::Gc<u8>,
        a5: U,
        a6: Vec<unsync::Gc<u16>>,
        a7: Option<T>,
        a8: T,
        a9: u8,
    },
    T10(
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
        unsync::Gc<u8>,
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
    ),
    U10,
    N11 {
        a0: U,
        a1: Vec<unsync::Gc<u16>>,
        a2: Option<T>,
        a3: T,
        a4: u8,
        a5: unsync::Gc<u8>,
        a6: U,
        a7: Vec<unsync::Gc<u16>>,
        a8: Option<T>,
        a9: T,
        a10: u8,
    },
    T11(
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
        unsync::Gc<u8>,
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
    ),
    U11,
    N12 {
        a0: unsync::Gc<u8>,
        a1: U,
        a2: Vec<unsync::Gc<u16>>,
        a3: Option<T>,
        a4: T,
        a5: u8,
        a6: unsync::Gc<u8>,
        a7: U,
        a8: Vec<unsync::Gc<u16>>,
        a9: Option<T>,
        a10: T,
        a11: u8,
    },
    T12(
        unsync::Gc<u8>,
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
        unsync::Gc<u8>,
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
    ),
    U12,
    N13 {
        a0: u8,
        a1: unsync::Gc<u8>,
        a2: U,
        a3: Vec<unsync::Gc<u16>>,
        a4: Option<T>,
        a5: T,
        a6: u8,
        a7: unsync::Gc<u8>,
        a8: U,
        a9: Vec<unsync::Gc<u16>>,
        a10: Option<T>,
        a11: T,
        a12: u8,
    },
    T13(
        u8,
        unsync::Gc<u8>,
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
        unsync::Gc<u8>,
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
    ),
    U13,
    N16 {
        a0: Vec<unsync::Gc<u16>>,
        a1: Option<T>,
        a2: T,
        a3: u8,
        a4: unsync::Gc<u8>,
        a5: U,
        a6: Vec<unsync::Gc<u16>>,
        a7: Option<T>,
        a8: T,
        a9: u8,
        a10: unsync::Gc<u8>,
        a11: U,
        a12: Vec<unsync::Gc<u16>>,
        a13: Option<T>,
        a14: T,
        a15: u8,
    },
    T16(
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
        unsync::Gc<u8>,
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
        unsync::Gc<u8>,
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
    ),
    U16,
    N17 {
        a0: U,
        a1: Vec<unsync::Gc<u16>>,
        a2: Option<T>,
        a3: T,
        a4: u8,
        a5: unsync::Gc<u8>,
        a6: U,
        a7: Vec<unsync::Gc<u16>>,
        a8: Option<T>,
        a9: T,
        a10: u8,
        a11: unsync::Gc<u8>,
        a12: U,
        a13: Vec<unsync::Gc<u16>>,
        a14: Option<T>,
        a15: T,
        a16: u8,
    },
    T17(
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
        unsync::Gc<u8>,
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
        unsync::Gc<u8>,
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
    ),
    U17,
    N32 {
        a0: T,
        a1: u8,
        a2: unsync::Gc<u8>,
        a3: U,
        a4: Vec<unsync::Gc<u16>>,
        a5: Option<T>,
        a6: T,
        a7: u8,
        a8: unsync::Gc<u8>,
        a9: U,
        a10: Vec<unsync::Gc<u16>>,
        a11: Option<T>,
        a12: T,
        a13: u8,
        a14: unsync::Gc<u8>,
        a15: U,
        a16: Vec<unsync::Gc<u16>>,
        a17: Option<T>,
        a18: T,
        a19: u8,
        a20: unsync::Gc<u8>,
        a21: U,
        a22: Vec<unsync::Gc<u16>>,
        a23: Option<T>,
        a24: T,
        a25: u8,
        a26: unsync::Gc<u8>,
        a27: U,
        a28: Vec<unsync::Gc<u16>>,
        a29: Option<T>,
        a30: T,
        a31: u8,
    },
    T32(
        T,
        u8,
        unsync::Gc<u8>,
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
        unsync::Gc<u8>,
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
        unsync::Gc<u8>,
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
        unsync::Gc<u8>,
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
        unsync::Gc<u8>,
        U,
        Vec<unsync::Gc<u16>>,
        Option<T>,
        T,
        u8,
    ),
    U32,
}

#[derive(Collectable)]
pub enum Variants2 {
    V0,
    V1(unsync::Gc<u8>),
}

#[derive(Collectable)]
pub enum Variants3 {
    V0(unsync::Gc<u8>),
    V1 { x: unsync::Gc<u8> },
    V2,
}

#[derive(Collectable)]
pub enum Variants5 {
    V0,
    V1(unsync::Gc<u8>),
    V2 { x: unsync::Gc<u8> },
    V3,
    V4(unsync::Gc<u8>),
}

#[derive(Collectable)]
pub enum Variants8 {
    V0,
    V1(unsync::Gc<u8>),
    V2 { x: unsync::Gc<u8> },
    V3,
    V4(unsync::Gc<u8>),
    V5 { x: unsync::Gc<u8> },
    V6,
    V7(unsync::Gc<u8>),
}

#[derive(Collectable)]
pub enum Variants16 {
    V0 { x: unsync::Gc<u8> },
    V1,
    V2(unsync::Gc<u8>),
    V3 { x: unsync::Gc<u8> },
    V4,
    V5(unsync::Gc<u8>),
    V6 { x: unsync::Gc<u8> },
    V7,
    V8(unsync::Gc<u8>),
    V9 { x: unsync::Gc<u8> },
    V10,
    V11(unsync::Gc<u8>),
    V12 { x: unsync::Gc<u8> },
    V13,
    V14(unsync::Gc<u8>),
    V15 { x: unsync::Gc<u8> },
}

#[derive(Collectable)]
pub enum Variants33 {
    V0(unsync::Gc<u8>),
    V1 { x: unsync::Gc<u8> },
    V2,
    V3(unsync::Gc<u8>),
    V4 { x: unsync::Gc<u8> },
    V5,
    V6(unsync::Gc<u8>),
    V7 { x: unsync::Gc<u8> },
    V8,
    V9(unsync::Gc<u8>),
    V10 { x: unsync::Gc<u8> },
    V11,
    V12(unsync::Gc<u8>),
    V13 { x: unsync::Gc<u8> },
    V14,
    V15(unsync::Gc<u8>),
    V16 { x: unsync::Gc<u8> },
    V17,
    V18(unsync::Gc<u8>),
    V19 { x: unsync::Gc<u8> },
    V20,
    V21(unsync::Gc<u8>),
    V22 { x: unsync::Gc<u8> },
    V23,
    V24(unsync::Gc<u8>),
    V25 { x: unsync::Gc<u8> },
    V26,
    V27(unsync::Gc<u8>),
    V28 { x: unsync::Gc<u8> },
    V29,
    V30(unsync::Gc<u8>),
    V31 { x: unsync::Gc<u8> },
    V32,
}
