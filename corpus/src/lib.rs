// Written by tools/corpus.py. Types that use the derive macros.
#![allow(dead_code)]
use static_xml_derive::{Deserialize, ParseText, Serialize, ToText};

mod base;
pub use base::*;

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum Color {
    Red,
    #[static_xml(rename = "green")]
    Green,
    #[static_xml(rename = "blue ish")]
    Blue,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum Size {
    #[static_xml(rename = "small")]
    Small,
    #[static_xml(rename = "extra large")]
    Large,
    Medium,
    #[static_xml(unknown)]
    Other(String),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "replace")]
pub enum Code {
    #[static_xml(rename = "a b")]
    Ab,
    #[static_xml(rename = "a")]
    A,
    #[static_xml(rename = "")]
    Empty,
    #[static_xml(unknown)]
    Unknown(String),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum Keep {
    #[static_xml(rename = " pad ")]
    Pad,
    #[static_xml(rename = "pad")]
    Pad2,
    PAD,
    #[static_xml(unknown)]
    Rest(String),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum Tight {
    One,
    #[static_xml(rename = "two words")]
    Two,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "replace")]
pub enum Vowel {
    #[static_xml(rename = "a")]
    A,
    #[static_xml(rename = "e")]
    E,
    #[static_xml(rename = "ea")]
    Ea,
    #[static_xml(rename = "é\t")]
    Hidden,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "std", whitespace = "collapse")]
pub struct Pair(pub String, pub String);

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "std")]
pub struct Word(pub String, pub String);

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union")]
pub enum ColorOrNum {
    Col(Color),
    Num(i32),
    Flag(bool),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "collapse")]
pub enum Loose {
    Num(u64),
    Neg(i32),
    Sz(Size),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "replace")]
pub enum TwoTexts {
    T(Tight),
    V(Vowel),
    P(Pair),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union")]
pub enum Nested {
    Inner(ColorOrNum),
    Real(f64),
    Any(String),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union")]
pub enum Early {
    Flag(bool),
    Text(String),
    Num(i32),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "collapse")]
pub enum Front {
    Text(String),
    Sz(Size),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "replace")]
pub enum Alone {
    Only(u64),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union")]
pub enum TwoRest {
    Kept(Keep),
    Rep(Code),
    Num(f64),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum Ahead {
    #[static_xml(unknown)]
    Else(String),
    #[static_xml(rename = "plus")]
    P,
    #[static_xml(rename = "minus sign")]
    M,
    r#true,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum Foreign {
    #[static_xml(rename = "kürzer")]
    Kurz,
    #[static_xml(rename = "Größe")]
    Gross,
    #[static_xml(rename = "日本 語")]
    Nihon,
    #[static_xml(rename = "かな ")]
    Kana,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "std", whitespace = "replace")]
pub struct Line(pub String, pub String);

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "collapse")]
pub enum Strings {
    First(Keep),
    Second(String),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct Plain {
    pub one: String,
    pub two: Option<i32>,
    pub three: Vec<String>,
    #[static_xml(attribute)]
    pub attr: String,
    #[static_xml(attribute)]
    pub attr_opt: Option<i32>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct Empty {
}

#[derive(Debug, PartialEq, Default, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct Big {
    pub a: i32,
    pub b: String,
    pub c: Vec<i32>,
    pub d: Tracked,
    #[static_xml(attribute)]
    pub e: Option<String>,
    #[static_xml(attribute)]
    pub f: Option<u64>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct Defaults {
    #[static_xml(default)]
    pub z: i32,
    #[static_xml(default)]
    pub y: Vec<Tracked>,
    #[static_xml(attribute, default)]
    pub x: Tracked,
    #[static_xml(default)]
    pub w: Tracked,
    #[static_xml(attribute)]
    pub v: Option<Tracked>,
    #[static_xml(default)]
    pub big: Big,
    #[static_xml(default)]
    pub u: Option<Big>,
    #[static_xml(attribute, default)]
    pub t: bool,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(prefix = "a", rename = "spaced-out", namespace = "a: urn:a", namespace = "b: urn:b")]
pub struct Spaced {
    #[static_xml(prefix = "a")]
    pub x: String,
    #[static_xml(rename = "x", prefix = "b")]
    pub x2: String,
    #[static_xml(rename = "x")]
    pub x3: Option<String>,
    #[static_xml(attribute, prefix = "b")]
    pub p: i32,
    #[static_xml(attribute, rename = "p")]
    pub p2: Option<i32>,
    #[static_xml(attribute, rename = "lang", prefix = "xml")]
    pub q: Option<String>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(prefix = "", rename = "d", default_namespace = "urn:d")]
pub struct Defaulted {
    #[static_xml(prefix = "")]
    pub a: String,
    #[static_xml(prefix = "")]
    pub ab: Vec<i32>,
    #[static_xml(attribute)]
    pub b: Color,
    #[static_xml(attribute, rename = "a")]
    pub a2: Option<Color>,
    #[static_xml(attribute, prefix = "")]
    pub c: Option<i32>,
    #[static_xml(attribute, rename = "c")]
    pub c2: Option<i32>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct Near {
    pub ab: i32,
    pub a: i32,
    pub abc: Option<i32>,
    pub aB: Option<i32>,
    pub b: Vec<i32>,
    pub a_: Option<i32>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub enum Shape {
    Circle(i32),
    Square(Plain),
    Dot,
    Line(Vec<String>),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub enum Tone {
    Zeta(Color),
    Alpha(Option<Tracked>),
    Mid,
    #[static_xml(rename = "beta")]
    Other(Vec<Tracked>),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(prefix = "b", rename = "marked", namespace = "a: urn:a", namespace = "b: urn:b")]
pub enum Marked {
    #[static_xml(prefix = "a")]
    Yes(i32),
    #[static_xml(rename = "Yes", prefix = "b")]
    No,
    Maybe(Tight),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub enum Single {
    Only(Vec<i32>),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(rename = "blank")]
pub enum Blank {
    Nothing,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(prefix = "", default_namespace = "urn:d", namespace = "a: urn:a", namespace = "b: urn:b")]
pub enum Mixed {
    #[static_xml(prefix = "a")]
    Zed(i32),
    #[static_xml(skip, rename = "Zed", prefix = "b")]
    Lost(Plain),
    #[static_xml(prefix = "")]
    Name(String),
    #[static_xml(rename = "Zed", prefix = "b")]
    Zed2(Option<Tight>),
    #[static_xml(prefix = "a")]
    r#type,
    #[static_xml(prefix = "")]
    Bare(Vec<Color>),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub enum Guarded {
    #[static_xml(skip)]
    Hidden(String),
    Seen(String),
    #[static_xml(skip)]
    Gone,
    Flag,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct One {
    pub head: String,
    #[static_xml(flatten)]
    pub shape: Shape,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct TwoFlat {
    #[static_xml(flatten)]
    pub shape: Shape,
    #[static_xml(attribute)]
    pub id: Tracked,
    #[static_xml(flatten)]
    pub tone: Tone,
    pub tail: Vec<Tracked>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "n: urn:n")]
pub struct Overlap {
    pub Dot: Option<Empty>,
    #[static_xml(flatten)]
    pub first: Shape,
    #[static_xml(flatten)]
    pub second: Shape,
    #[static_xml(flatten)]
    pub mark: Marked,
    #[static_xml(attribute, prefix = "n")]
    pub note: Option<String>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct Bare {
    pub k: i32,
    #[static_xml(flatten)]
    pub m: Marked,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct Trio {
    #[static_xml(flatten)]
    pub single: Single,
    pub Flag: Option<i32>,
    #[static_xml(flatten)]
    pub g: Guarded,
    #[static_xml(flatten)]
    pub n: Blank,
    #[static_xml(attribute, rename = "Only")]
    pub only: i32,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct Words {
    pub r#type: String,
    #[static_xml(attribute)]
    pub r#match: Option<i32>,
    #[static_xml(rename = "かな")]
    pub kana: Option<Foreign>,
    #[static_xml(attribute, rename = "é")]
    pub e: Option<i32>,
    #[static_xml(rename = "in-put")]
    pub r#in: Vec<Ahead>,
    pub _under: Option<Early>,
    #[static_xml(rename = "UPPER.case")]
    pub Upper: Option<Front>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct Wide {
    pub m: i32,
    pub zz: Vec<u64>,
    pub a10: Option<i32>,
    pub b: Option<Line>,
    pub a2: Option<Tracked>,
    #[static_xml(attribute)]
    pub n: i32,
    #[static_xml(attribute)]
    pub l: Option<String>,
    #[static_xml(attribute)]
    pub h: Option<TwoRest>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct Guard {
    pub before: i32,
    pub g: Guarded,
    pub after: Option<Guarded>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct GuardFlat {
    pub before: Option<i32>,
    #[static_xml(flatten)]
    pub g: Guarded,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "s: urn:a")]
pub struct Deep {
    pub plain: Plain,
    pub list: Vec<One>,
    pub choice: Option<Shape>,
    pub many: Vec<Tone>,
    pub text: ColorOrNum,
    #[static_xml(attribute)]
    pub t2: Option<Loose>,
    #[static_xml(rename = "spaced-out", prefix = "s")]
    pub sp: Option<Spaced>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub enum Tree {
    Leaf(TwoFlat),
    Branch(Vec<Deep>),
    Nil,
}

