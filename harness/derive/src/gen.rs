// Written by tools/corpus.py: the corpus as data.
#![allow(unused)]
use crate::extra::*;
use crate::model::*;
use corpus::*;

impl Model for Color {
    fn to_v(&self) -> Val {
        match self {
            Color::Red => Val::choice("Red", None),
            Color::Green => Val::choice("Green", None),
            Color::Blue => Val::choice("Blue", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Red" => Color::Red,
            "Green" => Color::Green,
            "Blue" => Color::Blue,
            _ => unreachable!(),
        }
    }
}
impl Model for Size {
    fn to_v(&self) -> Val {
        match self {
            Size::Small => Val::choice("Small", None),
            Size::Large => Val::choice("Large", None),
            Size::Medium => Val::choice("Medium", None),
            Size::Other(s) => Val::choice("Other", Some(s.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Small" => Size::Small,
            "Large" => Size::Large,
            "Medium" => Size::Medium,
            "Other" => Size::Other(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for Code {
    fn to_v(&self) -> Val {
        match self {
            Code::Ab => Val::choice("Ab", None),
            Code::A => Val::choice("A", None),
            Code::Empty => Val::choice("Empty", None),
            Code::Unknown(s) => Val::choice("Unknown", Some(s.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Ab" => Code::Ab,
            "A" => Code::A,
            "Empty" => Code::Empty,
            "Unknown" => Code::Unknown(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for Keep {
    fn to_v(&self) -> Val {
        match self {
            Keep::Pad => Val::choice("Pad", None),
            Keep::Pad2 => Val::choice("Pad2", None),
            Keep::PAD => Val::choice("PAD", None),
            Keep::Rest(s) => Val::choice("Rest", Some(s.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Pad" => Keep::Pad,
            "Pad2" => Keep::Pad2,
            "PAD" => Keep::PAD,
            "Rest" => Keep::Rest(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for Tight {
    fn to_v(&self) -> Val {
        match self {
            Tight::One => Val::choice("One", None),
            Tight::Two => Val::choice("Two", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "One" => Tight::One,
            "Two" => Tight::Two,
            _ => unreachable!(),
        }
    }
}
impl Model for Vowel {
    fn to_v(&self) -> Val {
        match self {
            Vowel::A => Val::choice("A", None),
            Vowel::E => Val::choice("E", None),
            Vowel::Ea => Val::choice("Ea", None),
            Vowel::Hidden => Val::choice("Hidden", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => Vowel::A,
            "E" => Vowel::E,
            "Ea" => Vowel::Ea,
            "Hidden" => Vowel::Hidden,
            _ => unreachable!(),
        }
    }
}
impl Model for Pair {
    fn to_v(&self) -> Val { Val::Scalar(self.to_string()) }
    fn from_v(v: &Val) -> Self { v.scalar().parse().unwrap() }
}
impl Model for Word {
    fn to_v(&self) -> Val { Val::Scalar(self.to_string()) }
    fn from_v(v: &Val) -> Self { v.scalar().parse().unwrap() }
}
impl Model for ColorOrNum {
    fn to_v(&self) -> Val {
        match self {
            ColorOrNum::Col(x) => Val::choice("Col", Some(x.to_v())),
            ColorOrNum::Num(x) => Val::choice("Num", Some(x.to_v())),
            ColorOrNum::Flag(x) => Val::choice("Flag", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Col" => ColorOrNum::Col(Model::from_v(p.unwrap())),
            "Num" => ColorOrNum::Num(Model::from_v(p.unwrap())),
            "Flag" => ColorOrNum::Flag(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for Loose {
    fn to_v(&self) -> Val {
        match self {
            Loose::Num(x) => Val::choice("Num", Some(x.to_v())),
            Loose::Neg(x) => Val::choice("Neg", Some(x.to_v())),
            Loose::Sz(x) => Val::choice("Sz", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Num" => Loose::Num(Model::from_v(p.unwrap())),
            "Neg" => Loose::Neg(Model::from_v(p.unwrap())),
            "Sz" => Loose::Sz(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for TwoTexts {
    fn to_v(&self) -> Val {
        match self {
            TwoTexts::T(x) => Val::choice("T", Some(x.to_v())),
            TwoTexts::V(x) => Val::choice("V", Some(x.to_v())),
            TwoTexts::P(x) => Val::choice("P", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "T" => TwoTexts::T(Model::from_v(p.unwrap())),
            "V" => TwoTexts::V(Model::from_v(p.unwrap())),
            "P" => TwoTexts::P(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for Nested {
    fn to_v(&self) -> Val {
        match self {
            Nested::Inner(x) => Val::choice("Inner", Some(x.to_v())),
            Nested::Real(x) => Val::choice("Real", Some(x.to_v())),
            Nested::Any(x) => Val::choice("Any", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Inner" => Nested::Inner(Model::from_v(p.unwrap())),
            "Real" => Nested::Real(Model::from_v(p.unwrap())),
            "Any" => Nested::Any(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for Early {
    fn to_v(&self) -> Val {
        match self {
            Early::Flag(x) => Val::choice("Flag", Some(x.to_v())),
            Early::Text(x) => Val::choice("Text", Some(x.to_v())),
            Early::Num(x) => Val::choice("Num", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Flag" => Early::Flag(Model::from_v(p.unwrap())),
            "Text" => Early::Text(Model::from_v(p.unwrap())),
            "Num" => Early::Num(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for Front {
    fn to_v(&self) -> Val {
        match self {
            Front::Text(x) => Val::choice("Text", Some(x.to_v())),
            Front::Sz(x) => Val::choice("Sz", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Text" => Front::Text(Model::from_v(p.unwrap())),
            "Sz" => Front::Sz(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for Alone {
    fn to_v(&self) -> Val {
        match self {
            Alone::Only(x) => Val::choice("Only", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Only" => Alone::Only(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for TwoRest {
    fn to_v(&self) -> Val {
        match self {
            TwoRest::Kept(x) => Val::choice("Kept", Some(x.to_v())),
            TwoRest::Rep(x) => Val::choice("Rep", Some(x.to_v())),
            TwoRest::Num(x) => Val::choice("Num", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Kept" => TwoRest::Kept(Model::from_v(p.unwrap())),
            "Rep" => TwoRest::Rep(Model::from_v(p.unwrap())),
            "Num" => TwoRest::Num(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for Ahead {
    fn to_v(&self) -> Val {
        match self {
            Ahead::P => Val::choice("P", None),
            Ahead::M => Val::choice("M", None),
            Ahead::r#true => Val::choice("r#true", None),
            Ahead::Else(s) => Val::choice("Else", Some(s.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "P" => Ahead::P,
            "M" => Ahead::M,
            "r#true" => Ahead::r#true,
            "Else" => Ahead::Else(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for Foreign {
    fn to_v(&self) -> Val {
        match self {
            Foreign::Kurz => Val::choice("Kurz", None),
            Foreign::Gross => Val::choice("Gross", None),
            Foreign::Nihon => Val::choice("Nihon", None),
            Foreign::Kana => Val::choice("Kana", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Kurz" => Foreign::Kurz,
            "Gross" => Foreign::Gross,
            "Nihon" => Foreign::Nihon,
            "Kana" => Foreign::Kana,
            _ => unreachable!(),
        }
    }
}
impl Model for Line {
    fn to_v(&self) -> Val { Val::Scalar(self.to_string()) }
    fn from_v(v: &Val) -> Self { v.scalar().parse().unwrap() }
}
impl Model for Strings {
    fn to_v(&self) -> Val {
        match self {
            Strings::First(x) => Val::choice("First", Some(x.to_v())),
            Strings::Second(x) => Val::choice("Second", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "First" => Strings::First(Model::from_v(p.unwrap())),
            "Second" => Strings::Second(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for Plain {
    fn to_v(&self) -> Val { Val::Fields(vec![self.one.to_v(), self.two.to_v(), self.three.to_v(), self.attr.to_v(), self.attr_opt.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); Plain { one: Model::from_v(&f[0]), two: Model::from_v(&f[1]), three: Model::from_v(&f[2]), attr: Model::from_v(&f[3]), attr_opt: Model::from_v(&f[4]) } }
}
impl Model for Empty {
    fn to_v(&self) -> Val { Val::Fields(vec![]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); Empty {  } }
}
impl Model for Big {
    fn to_v(&self) -> Val { Val::Fields(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v(), self.e.to_v(), self.f.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); Big { a: Model::from_v(&f[0]), b: Model::from_v(&f[1]), c: Model::from_v(&f[2]), d: Model::from_v(&f[3]), e: Model::from_v(&f[4]), f: Model::from_v(&f[5]) } }
}
impl Model for Defaults {
    fn to_v(&self) -> Val { Val::Fields(vec![self.z.to_v(), self.y.to_v(), self.x.to_v(), self.w.to_v(), self.v.to_v(), self.big.to_v(), self.u.to_v(), self.t.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); Defaults { z: Model::from_v(&f[0]), y: Model::from_v(&f[1]), x: Model::from_v(&f[2]), w: Model::from_v(&f[3]), v: Model::from_v(&f[4]), big: Model::from_v(&f[5]), u: Model::from_v(&f[6]), t: Model::from_v(&f[7]) } }
}
impl Model for Spaced {
    fn to_v(&self) -> Val { Val::Fields(vec![self.x.to_v(), self.x2.to_v(), self.x3.to_v(), self.p.to_v(), self.p2.to_v(), self.q.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); Spaced { x: Model::from_v(&f[0]), x2: Model::from_v(&f[1]), x3: Model::from_v(&f[2]), p: Model::from_v(&f[3]), p2: Model::from_v(&f[4]), q: Model::from_v(&f[5]) } }
}
impl Model for Defaulted {
    fn to_v(&self) -> Val { Val::Fields(vec![self.a.to_v(), self.ab.to_v(), self.b.to_v(), self.a2.to_v(), self.c.to_v(), self.c2.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); Defaulted { a: Model::from_v(&f[0]), ab: Model::from_v(&f[1]), b: Model::from_v(&f[2]), a2: Model::from_v(&f[3]), c: Model::from_v(&f[4]), c2: Model::from_v(&f[5]) } }
}
impl Model for Near {
    fn to_v(&self) -> Val { Val::Fields(vec![self.ab.to_v(), self.a.to_v(), self.abc.to_v(), self.aB.to_v(), self.b.to_v(), self.a_.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); Near { ab: Model::from_v(&f[0]), a: Model::from_v(&f[1]), abc: Model::from_v(&f[2]), aB: Model::from_v(&f[3]), b: Model::from_v(&f[4]), a_: Model::from_v(&f[5]) } }
}
impl Model for Shape {
    fn to_v(&self) -> Val {
        match self {
            Shape::Circle(x) => Val::choice("Circle", Some(x.to_v())),
            Shape::Square(x) => Val::choice("Square", Some(x.to_v())),
            Shape::Dot => Val::choice("Dot", None),
            Shape::Line(x) => Val::choice("Line", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Circle" => Shape::Circle(Model::from_v(p.unwrap())),
            "Square" => Shape::Square(Model::from_v(p.unwrap())),
            "Dot" => Shape::Dot,
            "Line" => Shape::Line(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for Tone {
    fn to_v(&self) -> Val {
        match self {
            Tone::Zeta(x) => Val::choice("Zeta", Some(x.to_v())),
            Tone::Alpha(x) => Val::choice("Alpha", Some(x.to_v())),
            Tone::Mid => Val::choice("Mid", None),
            Tone::Other(x) => Val::choice("Other", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Zeta" => Tone::Zeta(Model::from_v(p.unwrap())),
            "Alpha" => Tone::Alpha(Model::from_v(p.unwrap())),
            "Mid" => Tone::Mid,
            "Other" => Tone::Other(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for Marked {
    fn to_v(&self) -> Val {
        match self {
            Marked::Yes(x) => Val::choice("Yes", Some(x.to_v())),
            Marked::No => Val::choice("No", None),
            Marked::Maybe(x) => Val::choice("Maybe", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Yes" => Marked::Yes(Model::from_v(p.unwrap())),
            "No" => Marked::No,
            "Maybe" => Marked::Maybe(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for Single {
    fn to_v(&self) -> Val {
        match self {
            Single::Only(x) => Val::choice("Only", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Only" => Single::Only(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for Blank {
    fn to_v(&self) -> Val {
        match self {
            Blank::Nothing => Val::choice("Nothing", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Nothing" => Blank::Nothing,
            _ => unreachable!(),
        }
    }
}
impl Model for Mixed {
    fn to_v(&self) -> Val {
        match self {
            Mixed::Zed(x) => Val::choice("Zed", Some(x.to_v())),
            Mixed::Lost(x) => Val::choice("Lost", Some(x.to_v())),
            Mixed::Name(x) => Val::choice("Name", Some(x.to_v())),
            Mixed::Zed2(x) => Val::choice("Zed2", Some(x.to_v())),
            Mixed::r#type => Val::choice("r#type", None),
            Mixed::Bare(x) => Val::choice("Bare", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Zed" => Mixed::Zed(Model::from_v(p.unwrap())),
            "Lost" => Mixed::Lost(Model::from_v(p.unwrap())),
            "Name" => Mixed::Name(Model::from_v(p.unwrap())),
            "Zed2" => Mixed::Zed2(Model::from_v(p.unwrap())),
            "r#type" => Mixed::r#type,
            "Bare" => Mixed::Bare(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for Guarded {
    fn to_v(&self) -> Val {
        match self {
            Guarded::Hidden(x) => Val::choice("Hidden", Some(x.to_v())),
            Guarded::Seen(x) => Val::choice("Seen", Some(x.to_v())),
            Guarded::Gone => Val::choice("Gone", None),
            Guarded::Flag => Val::choice("Flag", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Hidden" => Guarded::Hidden(Model::from_v(p.unwrap())),
            "Seen" => Guarded::Seen(Model::from_v(p.unwrap())),
            "Gone" => Guarded::Gone,
            "Flag" => Guarded::Flag,
            _ => unreachable!(),
        }
    }
}
impl Model for One {
    fn to_v(&self) -> Val { Val::Fields(vec![self.head.to_v(), self.shape.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); One { head: Model::from_v(&f[0]), shape: Model::from_v(&f[1]) } }
}
impl Model for TwoFlat {
    fn to_v(&self) -> Val { Val::Fields(vec![self.shape.to_v(), self.id.to_v(), self.tone.to_v(), self.tail.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); TwoFlat { shape: Model::from_v(&f[0]), id: Model::from_v(&f[1]), tone: Model::from_v(&f[2]), tail: Model::from_v(&f[3]) } }
}
impl Model for Overlap {
    fn to_v(&self) -> Val { Val::Fields(vec![self.Dot.to_v(), self.first.to_v(), self.second.to_v(), self.mark.to_v(), self.note.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); Overlap { Dot: Model::from_v(&f[0]), first: Model::from_v(&f[1]), second: Model::from_v(&f[2]), mark: Model::from_v(&f[3]), note: Model::from_v(&f[4]) } }
}
impl Model for Bare {
    fn to_v(&self) -> Val { Val::Fields(vec![self.k.to_v(), self.m.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); Bare { k: Model::from_v(&f[0]), m: Model::from_v(&f[1]) } }
}
impl Model for Trio {
    fn to_v(&self) -> Val { Val::Fields(vec![self.single.to_v(), self.Flag.to_v(), self.g.to_v(), self.n.to_v(), self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); Trio { single: Model::from_v(&f[0]), Flag: Model::from_v(&f[1]), g: Model::from_v(&f[2]), n: Model::from_v(&f[3]), only: Model::from_v(&f[4]) } }
}
impl Model for Words {
    fn to_v(&self) -> Val { Val::Fields(vec![self.r#type.to_v(), self.r#match.to_v(), self.kana.to_v(), self.e.to_v(), self.r#in.to_v(), self._under.to_v(), self.Upper.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); Words { r#type: Model::from_v(&f[0]), r#match: Model::from_v(&f[1]), kana: Model::from_v(&f[2]), e: Model::from_v(&f[3]), r#in: Model::from_v(&f[4]), _under: Model::from_v(&f[5]), Upper: Model::from_v(&f[6]) } }
}
impl Model for Wide {
    fn to_v(&self) -> Val { Val::Fields(vec![self.m.to_v(), self.zz.to_v(), self.a10.to_v(), self.b.to_v(), self.a2.to_v(), self.n.to_v(), self.l.to_v(), self.h.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); Wide { m: Model::from_v(&f[0]), zz: Model::from_v(&f[1]), a10: Model::from_v(&f[2]), b: Model::from_v(&f[3]), a2: Model::from_v(&f[4]), n: Model::from_v(&f[5]), l: Model::from_v(&f[6]), h: Model::from_v(&f[7]) } }
}
impl Model for Guard {
    fn to_v(&self) -> Val { Val::Fields(vec![self.before.to_v(), self.g.to_v(), self.after.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); Guard { before: Model::from_v(&f[0]), g: Model::from_v(&f[1]), after: Model::from_v(&f[2]) } }
}
impl Model for GuardFlat {
    fn to_v(&self) -> Val { Val::Fields(vec![self.before.to_v(), self.g.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); GuardFlat { before: Model::from_v(&f[0]), g: Model::from_v(&f[1]) } }
}
impl Model for Deep {
    fn to_v(&self) -> Val { Val::Fields(vec![self.plain.to_v(), self.list.to_v(), self.choice.to_v(), self.many.to_v(), self.text.to_v(), self.t2.to_v(), self.sp.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); Deep { plain: Model::from_v(&f[0]), list: Model::from_v(&f[1]), choice: Model::from_v(&f[2]), many: Model::from_v(&f[3]), text: Model::from_v(&f[4]), t2: Model::from_v(&f[5]), sp: Model::from_v(&f[6]) } }
}
impl Model for Tree {
    fn to_v(&self) -> Val {
        match self {
            Tree::Leaf(x) => Val::choice("Leaf", Some(x.to_v())),
            Tree::Branch(x) => Val::choice("Branch", Some(x.to_v())),
            Tree::Nil => Val::choice("Nil", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Leaf" => Tree::Leaf(Model::from_v(p.unwrap())),
            "Branch" => Tree::Branch(Model::from_v(p.unwrap())),
            "Nil" => Tree::Nil,
            _ => unreachable!(),
        }
    }
}
impl Model for XR0 {
    fn to_v(&self) -> Val {
        match self {
            XR0::V0 => Val::choice("V0", None),
            XR0::V1 => Val::choice("V1", None),
            XR0::V2 => Val::choice("V2", None),
            XR0::V3 => Val::choice("V3", None),
            XR0::V4 => Val::choice("V4", None),
            XR0::Unknown(s) => Val::choice("Unknown", Some(s.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XR0::V0,
            "V1" => XR0::V1,
            "V2" => XR0::V2,
            "V3" => XR0::V3,
            "V4" => XR0::V4,
            "Unknown" => XR0::Unknown(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XR1 {
    fn to_v(&self) -> Val {
        match self {
            XR1::V0 => Val::choice("V0", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XR1::V0,
            _ => unreachable!(),
        }
    }
}
impl Model for XR2 {
    fn to_v(&self) -> Val {
        match self {
            XR2::V0 => Val::choice("V0", None),
            XR2::V1 => Val::choice("V1", None),
            XR2::V2 => Val::choice("V2", None),
            XR2::V3 => Val::choice("V3", None),
            XR2::V4 => Val::choice("V4", None),
            XR2::V5 => Val::choice("V5", None),
            XR2::V6 => Val::choice("V6", None),
            XR2::V7 => Val::choice("V7", None),
            XR2::V8 => Val::choice("V8", None),
            XR2::Unknown(s) => Val::choice("Unknown", Some(s.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XR2::V0,
            "V1" => XR2::V1,
            "V2" => XR2::V2,
            "V3" => XR2::V3,
            "V4" => XR2::V4,
            "V5" => XR2::V5,
            "V6" => XR2::V6,
            "V7" => XR2::V7,
            "V8" => XR2::V8,
            "Unknown" => XR2::Unknown(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XR3 {
    fn to_v(&self) -> Val {
        match self {
            XR3::V0 => Val::choice("V0", None),
            XR3::V1 => Val::choice("V1", None),
            XR3::V2 => Val::choice("V2", None),
            XR3::V3 => Val::choice("V3", None),
            XR3::V4 => Val::choice("V4", None),
            XR3::V5 => Val::choice("V5", None),
            XR3::V6 => Val::choice("V6", None),
            XR3::V7 => Val::choice("V7", None),
            XR3::V8 => Val::choice("V8", None),
            XR3::Unknown(s) => Val::choice("Unknown", Some(s.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XR3::V0,
            "V1" => XR3::V1,
            "V2" => XR3::V2,
            "V3" => XR3::V3,
            "V4" => XR3::V4,
            "V5" => XR3::V5,
            "V6" => XR3::V6,
            "V7" => XR3::V7,
            "V8" => XR3::V8,
            "Unknown" => XR3::Unknown(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XR4 {
    fn to_v(&self) -> Val {
        match self {
            XR4::V0 => Val::choice("V0", None),
            XR4::V1 => Val::choice("V1", None),
            XR4::V2 => Val::choice("V2", None),
            XR4::V3 => Val::choice("V3", None),
            XR4::V4 => Val::choice("V4", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XR4::V0,
            "V1" => XR4::V1,
            "V2" => XR4::V2,
            "V3" => XR4::V3,
            "V4" => XR4::V4,
            _ => unreachable!(),
        }
    }
}
impl Model for XR5 {
    fn to_v(&self) -> Val {
        match self {
            XR5::V0 => Val::choice("V0", None),
            XR5::V1 => Val::choice("V1", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XR5::V0,
            "V1" => XR5::V1,
            _ => unreachable!(),
        }
    }
}
impl Model for XR6 {
    fn to_v(&self) -> Val {
        match self {
            XR6::V0 => Val::choice("V0", None),
            XR6::V1 => Val::choice("V1", None),
            XR6::V2 => Val::choice("V2", None),
            XR6::V3 => Val::choice("V3", None),
            XR6::V4 => Val::choice("V4", None),
            XR6::V5 => Val::choice("V5", None),
            XR6::V6 => Val::choice("V6", None),
            XR6::V7 => Val::choice("V7", None),
            XR6::V8 => Val::choice("V8", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XR6::V0,
            "V1" => XR6::V1,
            "V2" => XR6::V2,
            "V3" => XR6::V3,
            "V4" => XR6::V4,
            "V5" => XR6::V5,
            "V6" => XR6::V6,
            "V7" => XR6::V7,
            "V8" => XR6::V8,
            _ => unreachable!(),
        }
    }
}
impl Model for XR7 {
    fn to_v(&self) -> Val {
        match self {
            XR7::V0 => Val::choice("V0", None),
            XR7::V1 => Val::choice("V1", None),
            XR7::V2 => Val::choice("V2", None),
            XR7::V3 => Val::choice("V3", None),
            XR7::V4 => Val::choice("V4", None),
            XR7::V5 => Val::choice("V5", None),
            XR7::V6 => Val::choice("V6", None),
            XR7::V7 => Val::choice("V7", None),
            XR7::V8 => Val::choice("V8", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XR7::V0,
            "V1" => XR7::V1,
            "V2" => XR7::V2,
            "V3" => XR7::V3,
            "V4" => XR7::V4,
            "V5" => XR7::V5,
            "V6" => XR7::V6,
            "V7" => XR7::V7,
            "V8" => XR7::V8,
            _ => unreachable!(),
        }
    }
}
impl Model for XR8 {
    fn to_v(&self) -> Val {
        match self {
            XR8::V0 => Val::choice("V0", None),
            XR8::V1 => Val::choice("V1", None),
            XR8::V2 => Val::choice("V2", None),
            XR8::V3 => Val::choice("V3", None),
            XR8::V4 => Val::choice("V4", None),
            XR8::Unknown(s) => Val::choice("Unknown", Some(s.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XR8::V0,
            "V1" => XR8::V1,
            "V2" => XR8::V2,
            "V3" => XR8::V3,
            "V4" => XR8::V4,
            "Unknown" => XR8::Unknown(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XR9 {
    fn to_v(&self) -> Val {
        match self {
            XR9::V0 => Val::choice("V0", None),
            XR9::V1 => Val::choice("V1", None),
            XR9::V2 => Val::choice("V2", None),
            XR9::V3 => Val::choice("V3", None),
            XR9::V4 => Val::choice("V4", None),
            XR9::V5 => Val::choice("V5", None),
            XR9::V6 => Val::choice("V6", None),
            XR9::V7 => Val::choice("V7", None),
            XR9::V8 => Val::choice("V8", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XR9::V0,
            "V1" => XR9::V1,
            "V2" => XR9::V2,
            "V3" => XR9::V3,
            "V4" => XR9::V4,
            "V5" => XR9::V5,
            "V6" => XR9::V6,
            "V7" => XR9::V7,
            "V8" => XR9::V8,
            _ => unreachable!(),
        }
    }
}
impl Model for XR10 {
    fn to_v(&self) -> Val {
        match self {
            XR10::V0 => Val::choice("V0", None),
            XR10::V1 => Val::choice("V1", None),
            XR10::V2 => Val::choice("V2", None),
            XR10::V3 => Val::choice("V3", None),
            XR10::V4 => Val::choice("V4", None),
            XR10::V5 => Val::choice("V5", None),
            XR10::V6 => Val::choice("V6", None),
            XR10::V7 => Val::choice("V7", None),
            XR10::V8 => Val::choice("V8", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XR10::V0,
            "V1" => XR10::V1,
            "V2" => XR10::V2,
            "V3" => XR10::V3,
            "V4" => XR10::V4,
            "V5" => XR10::V5,
            "V6" => XR10::V6,
            "V7" => XR10::V7,
            "V8" => XR10::V8,
            _ => unreachable!(),
        }
    }
}
impl Model for XR11 {
    fn to_v(&self) -> Val {
        match self {
            XR11::V0 => Val::choice("V0", None),
            XR11::V1 => Val::choice("V1", None),
            XR11::V2 => Val::choice("V2", None),
            XR11::V3 => Val::choice("V3", None),
            XR11::V4 => Val::choice("V4", None),
            XR11::V5 => Val::choice("V5", None),
            XR11::V6 => Val::choice("V6", None),
            XR11::V7 => Val::choice("V7", None),
            XR11::V8 => Val::choice("V8", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XR11::V0,
            "V1" => XR11::V1,
            "V2" => XR11::V2,
            "V3" => XR11::V3,
            "V4" => XR11::V4,
            "V5" => XR11::V5,
            "V6" => XR11::V6,
            "V7" => XR11::V7,
            "V8" => XR11::V8,
            _ => unreachable!(),
        }
    }
}
impl Model for XRWide {
    fn to_v(&self) -> Val {
        match self {
            XRWide::V0 => Val::choice("V0", None),
            XRWide::V1 => Val::choice("V1", None),
            XRWide::V2 => Val::choice("V2", None),
            XRWide::V3 => Val::choice("V3", None),
            XRWide::V4 => Val::choice("V4", None),
            XRWide::V5 => Val::choice("V5", None),
            XRWide::V6 => Val::choice("V6", None),
            XRWide::V7 => Val::choice("V7", None),
            XRWide::V8 => Val::choice("V8", None),
            XRWide::V9 => Val::choice("V9", None),
            XRWide::V10 => Val::choice("V10", None),
            XRWide::V11 => Val::choice("V11", None),
            XRWide::V12 => Val::choice("V12", None),
            XRWide::V13 => Val::choice("V13", None),
            XRWide::V14 => Val::choice("V14", None),
            XRWide::V15 => Val::choice("V15", None),
            XRWide::V16 => Val::choice("V16", None),
            XRWide::V17 => Val::choice("V17", None),
            XRWide::V18 => Val::choice("V18", None),
            XRWide::V19 => Val::choice("V19", None),
            XRWide::V20 => Val::choice("V20", None),
            XRWide::V21 => Val::choice("V21", None),
            XRWide::V22 => Val::choice("V22", None),
            XRWide::V23 => Val::choice("V23", None),
            XRWide::V24 => Val::choice("V24", None),
            XRWide::V25 => Val::choice("V25", None),
            XRWide::V26 => Val::choice("V26", None),
            XRWide::V27 => Val::choice("V27", None),
            XRWide::V28 => Val::choice("V28", None),
            XRWide::V29 => Val::choice("V29", None),
            XRWide::V30 => Val::choice("V30", None),
            XRWide::V31 => Val::choice("V31", None),
            XRWide::V32 => Val::choice("V32", None),
            XRWide::V33 => Val::choice("V33", None),
            XRWide::V34 => Val::choice("V34", None),
            XRWide::V35 => Val::choice("V35", None),
            XRWide::V36 => Val::choice("V36", None),
            XRWide::V37 => Val::choice("V37", None),
            XRWide::V38 => Val::choice("V38", None),
            XRWide::V39 => Val::choice("V39", None),
            XRWide::V40 => Val::choice("V40", None),
            XRWide::V41 => Val::choice("V41", None),
            XRWide::V42 => Val::choice("V42", None),
            XRWide::V43 => Val::choice("V43", None),
            XRWide::V44 => Val::choice("V44", None),
            XRWide::V45 => Val::choice("V45", None),
            XRWide::V46 => Val::choice("V46", None),
            XRWide::V47 => Val::choice("V47", None),
            XRWide::V48 => Val::choice("V48", None),
            XRWide::V49 => Val::choice("V49", None),
            XRWide::V50 => Val::choice("V50", None),
            XRWide::V51 => Val::choice("V51", None),
            XRWide::V52 => Val::choice("V52", None),
            XRWide::V53 => Val::choice("V53", None),
            XRWide::V54 => Val::choice("V54", None),
            XRWide::V55 => Val::choice("V55", None),
            XRWide::V56 => Val::choice("V56", None),
            XRWide::V57 => Val::choice("V57", None),
            XRWide::V58 => Val::choice("V58", None),
            XRWide::V59 => Val::choice("V59", None),
            XRWide::V60 => Val::choice("V60", None),
            XRWide::V61 => Val::choice("V61", None),
            XRWide::V62 => Val::choice("V62", None),
            XRWide::V63 => Val::choice("V63", None),
            XRWide::V64 => Val::choice("V64", None),
            XRWide::V65 => Val::choice("V65", None),
            XRWide::V66 => Val::choice("V66", None),
            XRWide::V67 => Val::choice("V67", None),
            XRWide::V68 => Val::choice("V68", None),
            XRWide::V69 => Val::choice("V69", None),
            XRWide::V70 => Val::choice("V70", None),
            XRWide::V71 => Val::choice("V71", None),
            XRWide::V72 => Val::choice("V72", None),
            XRWide::V73 => Val::choice("V73", None),
            XRWide::V74 => Val::choice("V74", None),
            XRWide::V75 => Val::choice("V75", None),
            XRWide::V76 => Val::choice("V76", None),
            XRWide::V77 => Val::choice("V77", None),
            XRWide::V78 => Val::choice("V78", None),
            XRWide::V79 => Val::choice("V79", None),
            XRWide::V80 => Val::choice("V80", None),
            XRWide::V81 => Val::choice("V81", None),
            XRWide::V82 => Val::choice("V82", None),
            XRWide::V83 => Val::choice("V83", None),
            XRWide::V84 => Val::choice("V84", None),
            XRWide::V85 => Val::choice("V85", None),
            XRWide::V86 => Val::choice("V86", None),
            XRWide::V87 => Val::choice("V87", None),
            XRWide::V88 => Val::choice("V88", None),
            XRWide::V89 => Val::choice("V89", None),
            XRWide::V90 => Val::choice("V90", None),
            XRWide::V91 => Val::choice("V91", None),
            XRWide::V92 => Val::choice("V92", None),
            XRWide::V93 => Val::choice("V93", None),
            XRWide::V94 => Val::choice("V94", None),
            XRWide::V95 => Val::choice("V95", None),
            XRWide::V96 => Val::choice("V96", None),
            XRWide::V97 => Val::choice("V97", None),
            XRWide::V98 => Val::choice("V98", None),
            XRWide::V99 => Val::choice("V99", None),
            XRWide::V100 => Val::choice("V100", None),
            XRWide::V101 => Val::choice("V101", None),
            XRWide::V102 => Val::choice("V102", None),
            XRWide::V103 => Val::choice("V103", None),
            XRWide::V104 => Val::choice("V104", None),
            XRWide::V105 => Val::choice("V105", None),
            XRWide::V106 => Val::choice("V106", None),
            XRWide::V107 => Val::choice("V107", None),
            XRWide::V108 => Val::choice("V108", None),
            XRWide::V109 => Val::choice("V109", None),
            XRWide::V110 => Val::choice("V110", None),
            XRWide::V111 => Val::choice("V111", None),
            XRWide::V112 => Val::choice("V112", None),
            XRWide::V113 => Val::choice("V113", None),
            XRWide::V114 => Val::choice("V114", None),
            XRWide::V115 => Val::choice("V115", None),
            XRWide::V116 => Val::choice("V116", None),
            XRWide::V117 => Val::choice("V117", None),
            XRWide::V118 => Val::choice("V118", None),
            XRWide::V119 => Val::choice("V119", None),
            XRWide::V120 => Val::choice("V120", None),
            XRWide::V121 => Val::choice("V121", None),
            XRWide::V122 => Val::choice("V122", None),
            XRWide::V123 => Val::choice("V123", None),
            XRWide::V124 => Val::choice("V124", None),
            XRWide::V125 => Val::choice("V125", None),
            XRWide::V126 => Val::choice("V126", None),
            XRWide::V127 => Val::choice("V127", None),
            XRWide::V128 => Val::choice("V128", None),
            XRWide::V129 => Val::choice("V129", None),
            XRWide::V130 => Val::choice("V130", None),
            XRWide::V131 => Val::choice("V131", None),
            XRWide::V132 => Val::choice("V132", None),
            XRWide::V133 => Val::choice("V133", None),
            XRWide::V134 => Val::choice("V134", None),
            XRWide::V135 => Val::choice("V135", None),
            XRWide::V136 => Val::choice("V136", None),
            XRWide::V137 => Val::choice("V137", None),
            XRWide::V138 => Val::choice("V138", None),
            XRWide::V139 => Val::choice("V139", None),
            XRWide::V140 => Val::choice("V140", None),
            XRWide::V141 => Val::choice("V141", None),
            XRWide::V142 => Val::choice("V142", None),
            XRWide::V143 => Val::choice("V143", None),
            XRWide::V144 => Val::choice("V144", None),
            XRWide::V145 => Val::choice("V145", None),
            XRWide::V146 => Val::choice("V146", None),
            XRWide::V147 => Val::choice("V147", None),
            XRWide::V148 => Val::choice("V148", None),
            XRWide::V149 => Val::choice("V149", None),
            XRWide::V150 => Val::choice("V150", None),
            XRWide::V151 => Val::choice("V151", None),
            XRWide::V152 => Val::choice("V152", None),
            XRWide::V153 => Val::choice("V153", None),
            XRWide::V154 => Val::choice("V154", None),
            XRWide::V155 => Val::choice("V155", None),
            XRWide::V156 => Val::choice("V156", None),
            XRWide::V157 => Val::choice("V157", None),
            XRWide::V158 => Val::choice("V158", None),
            XRWide::V159 => Val::choice("V159", None),
            XRWide::V160 => Val::choice("V160", None),
            XRWide::V161 => Val::choice("V161", None),
            XRWide::V162 => Val::choice("V162", None),
            XRWide::V163 => Val::choice("V163", None),
            XRWide::V164 => Val::choice("V164", None),
            XRWide::V165 => Val::choice("V165", None),
            XRWide::V166 => Val::choice("V166", None),
            XRWide::V167 => Val::choice("V167", None),
            XRWide::V168 => Val::choice("V168", None),
            XRWide::V169 => Val::choice("V169", None),
            XRWide::V170 => Val::choice("V170", None),
            XRWide::V171 => Val::choice("V171", None),
            XRWide::V172 => Val::choice("V172", None),
            XRWide::V173 => Val::choice("V173", None),
            XRWide::V174 => Val::choice("V174", None),
            XRWide::V175 => Val::choice("V175", None),
            XRWide::V176 => Val::choice("V176", None),
            XRWide::V177 => Val::choice("V177", None),
            XRWide::V178 => Val::choice("V178", None),
            XRWide::V179 => Val::choice("V179", None),
            XRWide::V180 => Val::choice("V180", None),
            XRWide::V181 => Val::choice("V181", None),
            XRWide::V182 => Val::choice("V182", None),
            XRWide::V183 => Val::choice("V183", None),
            XRWide::V184 => Val::choice("V184", None),
            XRWide::V185 => Val::choice("V185", None),
            XRWide::V186 => Val::choice("V186", None),
            XRWide::V187 => Val::choice("V187", None),
            XRWide::V188 => Val::choice("V188", None),
            XRWide::V189 => Val::choice("V189", None),
            XRWide::V190 => Val::choice("V190", None),
            XRWide::V191 => Val::choice("V191", None),
            XRWide::V192 => Val::choice("V192", None),
            XRWide::V193 => Val::choice("V193", None),
            XRWide::V194 => Val::choice("V194", None),
            XRWide::V195 => Val::choice("V195", None),
            XRWide::V196 => Val::choice("V196", None),
            XRWide::V197 => Val::choice("V197", None),
            XRWide::V198 => Val::choice("V198", None),
            XRWide::V199 => Val::choice("V199", None),
            XRWide::V200 => Val::choice("V200", None),
            XRWide::V201 => Val::choice("V201", None),
            XRWide::V202 => Val::choice("V202", None),
            XRWide::V203 => Val::choice("V203", None),
            XRWide::V204 => Val::choice("V204", None),
            XRWide::V205 => Val::choice("V205", None),
            XRWide::V206 => Val::choice("V206", None),
            XRWide::V207 => Val::choice("V207", None),
            XRWide::V208 => Val::choice("V208", None),
            XRWide::V209 => Val::choice("V209", None),
            XRWide::V210 => Val::choice("V210", None),
            XRWide::V211 => Val::choice("V211", None),
            XRWide::V212 => Val::choice("V212", None),
            XRWide::V213 => Val::choice("V213", None),
            XRWide::V214 => Val::choice("V214", None),
            XRWide::V215 => Val::choice("V215", None),
            XRWide::V216 => Val::choice("V216", None),
            XRWide::V217 => Val::choice("V217", None),
            XRWide::V218 => Val::choice("V218", None),
            XRWide::V219 => Val::choice("V219", None),
            XRWide::V220 => Val::choice("V220", None),
            XRWide::V221 => Val::choice("V221", None),
            XRWide::V222 => Val::choice("V222", None),
            XRWide::V223 => Val::choice("V223", None),
            XRWide::V224 => Val::choice("V224", None),
            XRWide::V225 => Val::choice("V225", None),
            XRWide::V226 => Val::choice("V226", None),
            XRWide::V227 => Val::choice("V227", None),
            XRWide::V228 => Val::choice("V228", None),
            XRWide::V229 => Val::choice("V229", None),
            XRWide::V230 => Val::choice("V230", None),
            XRWide::V231 => Val::choice("V231", None),
            XRWide::V232 => Val::choice("V232", None),
            XRWide::V233 => Val::choice("V233", None),
            XRWide::V234 => Val::choice("V234", None),
            XRWide::V235 => Val::choice("V235", None),
            XRWide::V236 => Val::choice("V236", None),
            XRWide::V237 => Val::choice("V237", None),
            XRWide::V238 => Val::choice("V238", None),
            XRWide::V239 => Val::choice("V239", None),
            XRWide::V240 => Val::choice("V240", None),
            XRWide::V241 => Val::choice("V241", None),
            XRWide::V242 => Val::choice("V242", None),
            XRWide::V243 => Val::choice("V243", None),
            XRWide::V244 => Val::choice("V244", None),
            XRWide::V245 => Val::choice("V245", None),
            XRWide::V246 => Val::choice("V246", None),
            XRWide::V247 => Val::choice("V247", None),
            XRWide::V248 => Val::choice("V248", None),
            XRWide::V249 => Val::choice("V249", None),
            XRWide::V250 => Val::choice("V250", None),
            XRWide::V251 => Val::choice("V251", None),
            XRWide::V252 => Val::choice("V252", None),
            XRWide::V253 => Val::choice("V253", None),
            XRWide::V254 => Val::choice("V254", None),
            XRWide::V255 => Val::choice("V255", None),
            XRWide::V256 => Val::choice("V256", None),
            XRWide::V257 => Val::choice("V257", None),
            XRWide::V258 => Val::choice("V258", None),
            XRWide::V259 => Val::choice("V259", None),
            XRWide::V260 => Val::choice("V260", None),
            XRWide::V261 => Val::choice("V261", None),
            XRWide::V262 => Val::choice("V262", None),
            XRWide::V263 => Val::choice("V263", None),
            XRWide::V264 => Val::choice("V264", None),
            XRWide::V265 => Val::choice("V265", None),
            XRWide::V266 => Val::choice("V266", None),
            XRWide::V267 => Val::choice("V267", None),
            XRWide::V268 => Val::choice("V268", None),
            XRWide::V269 => Val::choice("V269", None),
            XRWide::Rest(s) => Val::choice("Rest", Some(s.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XRWide::V0,
            "V1" => XRWide::V1,
            "V2" => XRWide::V2,
            "V3" => XRWide::V3,
            "V4" => XRWide::V4,
            "V5" => XRWide::V5,
            "V6" => XRWide::V6,
            "V7" => XRWide::V7,
            "V8" => XRWide::V8,
            "V9" => XRWide::V9,
            "V10" => XRWide::V10,
            "V11" => XRWide::V11,
            "V12" => XRWide::V12,
            "V13" => XRWide::V13,
            "V14" => XRWide::V14,
            "V15" => XRWide::V15,
            "V16" => XRWide::V16,
            "V17" => XRWide::V17,
            "V18" => XRWide::V18,
            "V19" => XRWide::V19,
            "V20" => XRWide::V20,
            "V21" => XRWide::V21,
            "V22" => XRWide::V22,
            "V23" => XRWide::V23,
            "V24" => XRWide::V24,
            "V25" => XRWide::V25,
            "V26" => XRWide::V26,
            "V27" => XRWide::V27,
            "V28" => XRWide::V28,
            "V29" => XRWide::V29,
            "V30" => XRWide::V30,
            "V31" => XRWide::V31,
            "V32" => XRWide::V32,
            "V33" => XRWide::V33,
            "V34" => XRWide::V34,
            "V35" => XRWide::V35,
            "V36" => XRWide::V36,
            "V37" => XRWide::V37,
            "V38" => XRWide::V38,
            "V39" => XRWide::V39,
            "V40" => XRWide::V40,
            "V41" => XRWide::V41,
            "V42" => XRWide::V42,
            "V43" => XRWide::V43,
            "V44" => XRWide::V44,
            "V45" => XRWide::V45,
            "V46" => XRWide::V46,
            "V47" => XRWide::V47,
            "V48" => XRWide::V48,
            "V49" => XRWide::V49,
            "V50" => XRWide::V50,
            "V51" => XRWide::V51,
            "V52" => XRWide::V52,
            "V53" => XRWide::V53,
            "V54" => XRWide::V54,
            "V55" => XRWide::V55,
            "V56" => XRWide::V56,
            "V57" => XRWide::V57,
            "V58" => XRWide::V58,
            "V59" => XRWide::V59,
            "V60" => XRWide::V60,
            "V61" => XRWide::V61,
            "V62" => XRWide::V62,
            "V63" => XRWide::V63,
            "V64" => XRWide::V64,
            "V65" => XRWide::V65,
            "V66" => XRWide::V66,
            "V67" => XRWide::V67,
            "V68" => XRWide::V68,
            "V69" => XRWide::V69,
            "V70" => XRWide::V70,
            "V71" => XRWide::V71,
            "V72" => XRWide::V72,
            "V73" => XRWide::V73,
            "V74" => XRWide::V74,
            "V75" => XRWide::V75,
            "V76" => XRWide::V76,
            "V77" => XRWide::V77,
            "V78" => XRWide::V78,
            "V79" => XRWide::V79,
            "V80" => XRWide::V80,
            "V81" => XRWide::V81,
            "V82" => XRWide::V82,
            "V83" => XRWide::V83,
            "V84" => XRWide::V84,
            "V85" => XRWide::V85,
            "V86" => XRWide::V86,
            "V87" => XRWide::V87,
            "V88" => XRWide::V88,
            "V89" => XRWide::V89,
            "V90" => XRWide::V90,
            "V91" => XRWide::V91,
            "V92" => XRWide::V92,
            "V93" => XRWide::V93,
            "V94" => XRWide::V94,
            "V95" => XRWide::V95,
            "V96" => XRWide::V96,
            "V97" => XRWide::V97,
            "V98" => XRWide::V98,
            "V99" => XRWide::V99,
            "V100" => XRWide::V100,
            "V101" => XRWide::V101,
            "V102" => XRWide::V102,
            "V103" => XRWide::V103,
            "V104" => XRWide::V104,
            "V105" => XRWide::V105,
            "V106" => XRWide::V106,
            "V107" => XRWide::V107,
            "V108" => XRWide::V108,
            "V109" => XRWide::V109,
            "V110" => XRWide::V110,
            "V111" => XRWide::V111,
            "V112" => XRWide::V112,
            "V113" => XRWide::V113,
            "V114" => XRWide::V114,
            "V115" => XRWide::V115,
            "V116" => XRWide::V116,
            "V117" => XRWide::V117,
            "V118" => XRWide::V118,
            "V119" => XRWide::V119,
            "V120" => XRWide::V120,
            "V121" => XRWide::V121,
            "V122" => XRWide::V122,
            "V123" => XRWide::V123,
            "V124" => XRWide::V124,
            "V125" => XRWide::V125,
            "V126" => XRWide::V126,
            "V127" => XRWide::V127,
            "V128" => XRWide::V128,
            "V129" => XRWide::V129,
            "V130" => XRWide::V130,
            "V131" => XRWide::V131,
            "V132" => XRWide::V132,
            "V133" => XRWide::V133,
            "V134" => XRWide::V134,
            "V135" => XRWide::V135,
            "V136" => XRWide::V136,
            "V137" => XRWide::V137,
            "V138" => XRWide::V138,
            "V139" => XRWide::V139,
            "V140" => XRWide::V140,
            "V141" => XRWide::V141,
            "V142" => XRWide::V142,
            "V143" => XRWide::V143,
            "V144" => XRWide::V144,
            "V145" => XRWide::V145,
            "V146" => XRWide::V146,
            "V147" => XRWide::V147,
            "V148" => XRWide::V148,
            "V149" => XRWide::V149,
            "V150" => XRWide::V150,
            "V151" => XRWide::V151,
            "V152" => XRWide::V152,
            "V153" => XRWide::V153,
            "V154" => XRWide::V154,
            "V155" => XRWide::V155,
            "V156" => XRWide::V156,
            "V157" => XRWide::V157,
            "V158" => XRWide::V158,
            "V159" => XRWide::V159,
            "V160" => XRWide::V160,
            "V161" => XRWide::V161,
            "V162" => XRWide::V162,
            "V163" => XRWide::V163,
            "V164" => XRWide::V164,
            "V165" => XRWide::V165,
            "V166" => XRWide::V166,
            "V167" => XRWide::V167,
            "V168" => XRWide::V168,
            "V169" => XRWide::V169,
            "V170" => XRWide::V170,
            "V171" => XRWide::V171,
            "V172" => XRWide::V172,
            "V173" => XRWide::V173,
            "V174" => XRWide::V174,
            "V175" => XRWide::V175,
            "V176" => XRWide::V176,
            "V177" => XRWide::V177,
            "V178" => XRWide::V178,
            "V179" => XRWide::V179,
            "V180" => XRWide::V180,
            "V181" => XRWide::V181,
            "V182" => XRWide::V182,
            "V183" => XRWide::V183,
            "V184" => XRWide::V184,
            "V185" => XRWide::V185,
            "V186" => XRWide::V186,
            "V187" => XRWide::V187,
            "V188" => XRWide::V188,
            "V189" => XRWide::V189,
            "V190" => XRWide::V190,
            "V191" => XRWide::V191,
            "V192" => XRWide::V192,
            "V193" => XRWide::V193,
            "V194" => XRWide::V194,
            "V195" => XRWide::V195,
            "V196" => XRWide::V196,
            "V197" => XRWide::V197,
            "V198" => XRWide::V198,
            "V199" => XRWide::V199,
            "V200" => XRWide::V200,
            "V201" => XRWide::V201,
            "V202" => XRWide::V202,
            "V203" => XRWide::V203,
            "V204" => XRWide::V204,
            "V205" => XRWide::V205,
            "V206" => XRWide::V206,
            "V207" => XRWide::V207,
            "V208" => XRWide::V208,
            "V209" => XRWide::V209,
            "V210" => XRWide::V210,
            "V211" => XRWide::V211,
            "V212" => XRWide::V212,
            "V213" => XRWide::V213,
            "V214" => XRWide::V214,
            "V215" => XRWide::V215,
            "V216" => XRWide::V216,
            "V217" => XRWide::V217,
            "V218" => XRWide::V218,
            "V219" => XRWide::V219,
            "V220" => XRWide::V220,
            "V221" => XRWide::V221,
            "V222" => XRWide::V222,
            "V223" => XRWide::V223,
            "V224" => XRWide::V224,
            "V225" => XRWide::V225,
            "V226" => XRWide::V226,
            "V227" => XRWide::V227,
            "V228" => XRWide::V228,
            "V229" => XRWide::V229,
            "V230" => XRWide::V230,
            "V231" => XRWide::V231,
            "V232" => XRWide::V232,
            "V233" => XRWide::V233,
            "V234" => XRWide::V234,
            "V235" => XRWide::V235,
            "V236" => XRWide::V236,
            "V237" => XRWide::V237,
            "V238" => XRWide::V238,
            "V239" => XRWide::V239,
            "V240" => XRWide::V240,
            "V241" => XRWide::V241,
            "V242" => XRWide::V242,
            "V243" => XRWide::V243,
            "V244" => XRWide::V244,
            "V245" => XRWide::V245,
            "V246" => XRWide::V246,
            "V247" => XRWide::V247,
            "V248" => XRWide::V248,
            "V249" => XRWide::V249,
            "V250" => XRWide::V250,
            "V251" => XRWide::V251,
            "V252" => XRWide::V252,
            "V253" => XRWide::V253,
            "V254" => XRWide::V254,
            "V255" => XRWide::V255,
            "V256" => XRWide::V256,
            "V257" => XRWide::V257,
            "V258" => XRWide::V258,
            "V259" => XRWide::V259,
            "V260" => XRWide::V260,
            "V261" => XRWide::V261,
            "V262" => XRWide::V262,
            "V263" => XRWide::V263,
            "V264" => XRWide::V264,
            "V265" => XRWide::V265,
            "V266" => XRWide::V266,
            "V267" => XRWide::V267,
            "V268" => XRWide::V268,
            "V269" => XRWide::V269,
            "Rest" => XRWide::Rest(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XU0 {
    fn to_v(&self) -> Val {
        match self {
            XU0::V0(x) => Val::choice("V0", Some(x.to_v())),
            XU0::V1(x) => Val::choice("V1", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XU0::V0(Model::from_v(p.unwrap())),
            "V1" => XU0::V1(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XU1 {
    fn to_v(&self) -> Val {
        match self {
            XU1::V0(x) => Val::choice("V0", Some(x.to_v())),
            XU1::V1(x) => Val::choice("V1", Some(x.to_v())),
            XU1::V2(x) => Val::choice("V2", Some(x.to_v())),
            XU1::V3(x) => Val::choice("V3", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XU1::V0(Model::from_v(p.unwrap())),
            "V1" => XU1::V1(Model::from_v(p.unwrap())),
            "V2" => XU1::V2(Model::from_v(p.unwrap())),
            "V3" => XU1::V3(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XU2 {
    fn to_v(&self) -> Val {
        match self {
            XU2::V0(x) => Val::choice("V0", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XU2::V0(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XU3 {
    fn to_v(&self) -> Val {
        match self {
            XU3::V0(x) => Val::choice("V0", Some(x.to_v())),
            XU3::V1(x) => Val::choice("V1", Some(x.to_v())),
            XU3::V2(x) => Val::choice("V2", Some(x.to_v())),
            XU3::V3(x) => Val::choice("V3", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XU3::V0(Model::from_v(p.unwrap())),
            "V1" => XU3::V1(Model::from_v(p.unwrap())),
            "V2" => XU3::V2(Model::from_v(p.unwrap())),
            "V3" => XU3::V3(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XU4 {
    fn to_v(&self) -> Val {
        match self {
            XU4::V0(x) => Val::choice("V0", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XU4::V0(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XU5 {
    fn to_v(&self) -> Val {
        match self {
            XU5::V0(x) => Val::choice("V0", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XU5::V0(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XU6 {
    fn to_v(&self) -> Val {
        match self {
            XU6::V0(x) => Val::choice("V0", Some(x.to_v())),
            XU6::V1(x) => Val::choice("V1", Some(x.to_v())),
            XU6::V2(x) => Val::choice("V2", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XU6::V0(Model::from_v(p.unwrap())),
            "V1" => XU6::V1(Model::from_v(p.unwrap())),
            "V2" => XU6::V2(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XU7 {
    fn to_v(&self) -> Val {
        match self {
            XU7::V0(x) => Val::choice("V0", Some(x.to_v())),
            XU7::V1(x) => Val::choice("V1", Some(x.to_v())),
            XU7::V2(x) => Val::choice("V2", Some(x.to_v())),
            XU7::V3(x) => Val::choice("V3", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XU7::V0(Model::from_v(p.unwrap())),
            "V1" => XU7::V1(Model::from_v(p.unwrap())),
            "V2" => XU7::V2(Model::from_v(p.unwrap())),
            "V3" => XU7::V3(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XRU0 {
    fn to_v(&self) -> Val {
        match self {
            XRU0::A => Val::choice("A", None),
            XRU0::B => Val::choice("B", None),
            XRU0::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU0::A,
            "B" => XRU0::B,
            "C" => XRU0::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU1 {
    fn to_v(&self) -> Val {
        match self {
            XRU1::A => Val::choice("A", None),
            XRU1::B => Val::choice("B", None),
            XRU1::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU1::A,
            "B" => XRU1::B,
            "C" => XRU1::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU2 {
    fn to_v(&self) -> Val {
        match self {
            XRU2::A => Val::choice("A", None),
            XRU2::B => Val::choice("B", None),
            XRU2::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU2::A,
            "B" => XRU2::B,
            "C" => XRU2::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU3 {
    fn to_v(&self) -> Val {
        match self {
            XRU3::A => Val::choice("A", None),
            XRU3::B => Val::choice("B", None),
            XRU3::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU3::A,
            "B" => XRU3::B,
            "C" => XRU3::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU4 {
    fn to_v(&self) -> Val {
        match self {
            XRU4::A => Val::choice("A", None),
            XRU4::B => Val::choice("B", None),
            XRU4::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU4::A,
            "B" => XRU4::B,
            "C" => XRU4::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU5 {
    fn to_v(&self) -> Val {
        match self {
            XRU5::A => Val::choice("A", None),
            XRU5::B => Val::choice("B", None),
            XRU5::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU5::A,
            "B" => XRU5::B,
            "C" => XRU5::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU6 {
    fn to_v(&self) -> Val {
        match self {
            XRU6::A => Val::choice("A", None),
            XRU6::B => Val::choice("B", None),
            XRU6::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU6::A,
            "B" => XRU6::B,
            "C" => XRU6::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU7 {
    fn to_v(&self) -> Val {
        match self {
            XRU7::A => Val::choice("A", None),
            XRU7::B => Val::choice("B", None),
            XRU7::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU7::A,
            "B" => XRU7::B,
            "C" => XRU7::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU8 {
    fn to_v(&self) -> Val {
        match self {
            XRU8::A => Val::choice("A", None),
            XRU8::B => Val::choice("B", None),
            XRU8::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU8::A,
            "B" => XRU8::B,
            "C" => XRU8::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU9 {
    fn to_v(&self) -> Val {
        match self {
            XRU9::A => Val::choice("A", None),
            XRU9::B => Val::choice("B", None),
            XRU9::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU9::A,
            "B" => XRU9::B,
            "C" => XRU9::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU10 {
    fn to_v(&self) -> Val {
        match self {
            XRU10::A => Val::choice("A", None),
            XRU10::B => Val::choice("B", None),
            XRU10::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU10::A,
            "B" => XRU10::B,
            "C" => XRU10::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU11 {
    fn to_v(&self) -> Val {
        match self {
            XRU11::A => Val::choice("A", None),
            XRU11::B => Val::choice("B", None),
            XRU11::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU11::A,
            "B" => XRU11::B,
            "C" => XRU11::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU12 {
    fn to_v(&self) -> Val {
        match self {
            XRU12::A => Val::choice("A", None),
            XRU12::B => Val::choice("B", None),
            XRU12::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU12::A,
            "B" => XRU12::B,
            "C" => XRU12::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU13 {
    fn to_v(&self) -> Val {
        match self {
            XRU13::A => Val::choice("A", None),
            XRU13::B => Val::choice("B", None),
            XRU13::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU13::A,
            "B" => XRU13::B,
            "C" => XRU13::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU14 {
    fn to_v(&self) -> Val {
        match self {
            XRU14::A => Val::choice("A", None),
            XRU14::B => Val::choice("B", None),
            XRU14::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU14::A,
            "B" => XRU14::B,
            "C" => XRU14::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU15 {
    fn to_v(&self) -> Val {
        match self {
            XRU15::A => Val::choice("A", None),
            XRU15::B => Val::choice("B", None),
            XRU15::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU15::A,
            "B" => XRU15::B,
            "C" => XRU15::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU16 {
    fn to_v(&self) -> Val {
        match self {
            XRU16::A => Val::choice("A", None),
            XRU16::B => Val::choice("B", None),
            XRU16::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU16::A,
            "B" => XRU16::B,
            "C" => XRU16::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU17 {
    fn to_v(&self) -> Val {
        match self {
            XRU17::A => Val::choice("A", None),
            XRU17::B => Val::choice("B", None),
            XRU17::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU17::A,
            "B" => XRU17::B,
            "C" => XRU17::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU18 {
    fn to_v(&self) -> Val {
        match self {
            XRU18::A => Val::choice("A", None),
            XRU18::B => Val::choice("B", None),
            XRU18::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU18::A,
            "B" => XRU18::B,
            "C" => XRU18::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU19 {
    fn to_v(&self) -> Val {
        match self {
            XRU19::A => Val::choice("A", None),
            XRU19::B => Val::choice("B", None),
            XRU19::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU19::A,
            "B" => XRU19::B,
            "C" => XRU19::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU20 {
    fn to_v(&self) -> Val {
        match self {
            XRU20::A => Val::choice("A", None),
            XRU20::B => Val::choice("B", None),
            XRU20::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU20::A,
            "B" => XRU20::B,
            "C" => XRU20::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU21 {
    fn to_v(&self) -> Val {
        match self {
            XRU21::A => Val::choice("A", None),
            XRU21::B => Val::choice("B", None),
            XRU21::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU21::A,
            "B" => XRU21::B,
            "C" => XRU21::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU22 {
    fn to_v(&self) -> Val {
        match self {
            XRU22::A => Val::choice("A", None),
            XRU22::B => Val::choice("B", None),
            XRU22::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU22::A,
            "B" => XRU22::B,
            "C" => XRU22::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XRU23 {
    fn to_v(&self) -> Val {
        match self {
            XRU23::A => Val::choice("A", None),
            XRU23::B => Val::choice("B", None),
            XRU23::C => Val::choice("C", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XRU23::A,
            "B" => XRU23::B,
            "C" => XRU23::C,
            _ => unreachable!(),
        }
    }
}
impl Model for XUWide {
    fn to_v(&self) -> Val {
        match self {
            XUWide::V0(x) => Val::choice("V0", Some(x.to_v())),
            XUWide::V1(x) => Val::choice("V1", Some(x.to_v())),
            XUWide::V2(x) => Val::choice("V2", Some(x.to_v())),
            XUWide::V3(x) => Val::choice("V3", Some(x.to_v())),
            XUWide::V4(x) => Val::choice("V4", Some(x.to_v())),
            XUWide::V5(x) => Val::choice("V5", Some(x.to_v())),
            XUWide::V6(x) => Val::choice("V6", Some(x.to_v())),
            XUWide::V7(x) => Val::choice("V7", Some(x.to_v())),
            XUWide::V8(x) => Val::choice("V8", Some(x.to_v())),
            XUWide::V9(x) => Val::choice("V9", Some(x.to_v())),
            XUWide::V10(x) => Val::choice("V10", Some(x.to_v())),
            XUWide::V11(x) => Val::choice("V11", Some(x.to_v())),
            XUWide::V12(x) => Val::choice("V12", Some(x.to_v())),
            XUWide::V13(x) => Val::choice("V13", Some(x.to_v())),
            XUWide::V14(x) => Val::choice("V14", Some(x.to_v())),
            XUWide::V15(x) => Val::choice("V15", Some(x.to_v())),
            XUWide::V16(x) => Val::choice("V16", Some(x.to_v())),
            XUWide::V17(x) => Val::choice("V17", Some(x.to_v())),
            XUWide::V18(x) => Val::choice("V18", Some(x.to_v())),
            XUWide::V19(x) => Val::choice("V19", Some(x.to_v())),
            XUWide::V20(x) => Val::choice("V20", Some(x.to_v())),
            XUWide::V21(x) => Val::choice("V21", Some(x.to_v())),
            XUWide::V22(x) => Val::choice("V22", Some(x.to_v())),
            XUWide::V23(x) => Val::choice("V23", Some(x.to_v())),
            XUWide::Num(x) => Val::choice("Num", Some(x.to_v())),
            XUWide::Last(x) => Val::choice("Last", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XUWide::V0(Model::from_v(p.unwrap())),
            "V1" => XUWide::V1(Model::from_v(p.unwrap())),
            "V2" => XUWide::V2(Model::from_v(p.unwrap())),
            "V3" => XUWide::V3(Model::from_v(p.unwrap())),
            "V4" => XUWide::V4(Model::from_v(p.unwrap())),
            "V5" => XUWide::V5(Model::from_v(p.unwrap())),
            "V6" => XUWide::V6(Model::from_v(p.unwrap())),
            "V7" => XUWide::V7(Model::from_v(p.unwrap())),
            "V8" => XUWide::V8(Model::from_v(p.unwrap())),
            "V9" => XUWide::V9(Model::from_v(p.unwrap())),
            "V10" => XUWide::V10(Model::from_v(p.unwrap())),
            "V11" => XUWide::V11(Model::from_v(p.unwrap())),
            "V12" => XUWide::V12(Model::from_v(p.unwrap())),
            "V13" => XUWide::V13(Model::from_v(p.unwrap())),
            "V14" => XUWide::V14(Model::from_v(p.unwrap())),
            "V15" => XUWide::V15(Model::from_v(p.unwrap())),
            "V16" => XUWide::V16(Model::from_v(p.unwrap())),
            "V17" => XUWide::V17(Model::from_v(p.unwrap())),
            "V18" => XUWide::V18(Model::from_v(p.unwrap())),
            "V19" => XUWide::V19(Model::from_v(p.unwrap())),
            "V20" => XUWide::V20(Model::from_v(p.unwrap())),
            "V21" => XUWide::V21(Model::from_v(p.unwrap())),
            "V22" => XUWide::V22(Model::from_v(p.unwrap())),
            "V23" => XUWide::V23(Model::from_v(p.unwrap())),
            "Num" => XUWide::Num(Model::from_v(p.unwrap())),
            "Last" => XUWide::Last(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XS0 {
    fn to_v(&self) -> Val { Val::Fields(vec![]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS0 {  } }
}
impl Model for XS1 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.lang.to_v(), self.x2.to_v(), self.z.to_v(), self.value.to_v(), self.a.to_v(), self.ab.to_v(), self.b.to_v(), self.id.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS1 { lang: Model::from_v(&f[0]), x2: Model::from_v(&f[1]), z: Model::from_v(&f[2]), value: Model::from_v(&f[3]), a: Model::from_v(&f[4]), ab: Model::from_v(&f[5]), b: Model::from_v(&f[6]), id: Model::from_v(&f[7]) } }
}
impl Model for XE2 {
    fn to_v(&self) -> Val {
        match self {
            XE2::V0(x) => Val::choice("V0", Some(x.to_v())),
            XE2::V1(x) => Val::choice("V1", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XE2::V0(Model::from_v(p.unwrap())),
            "V1" => XE2::V1(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XS3 {
    fn to_v(&self) -> Val { Val::Fields(vec![self._v.to_v(), self.ab.to_v(), self.c.to_v(), self.r#type.to_v(), self.a.to_v(), self.x.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS3 { _v: Model::from_v(&f[0]), ab: Model::from_v(&f[1]), c: Model::from_v(&f[2]), r#type: Model::from_v(&f[3]), a: Model::from_v(&f[4]), x: Model::from_v(&f[5]) } }
}
impl Model for XS4 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.a.to_v(), self.present.to_v(), self.b.to_v(), self.x10.to_v(), self.zz_top.to_v(), self.r#in.to_v(), self.out.to_v(), self.lang.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS4 { a: Model::from_v(&f[0]), present: Model::from_v(&f[1]), b: Model::from_v(&f[2]), x10: Model::from_v(&f[3]), zz_top: Model::from_v(&f[4]), r#in: Model::from_v(&f[5]), out: Model::from_v(&f[6]), lang: Model::from_v(&f[7]) } }
}
impl Model for XE5 {
    fn to_v(&self) -> Val {
        match self {
            XE5::V3(x) => Val::choice("V3", Some(x.to_v())),
            XE5::V2(x) => Val::choice("V2", Some(x.to_v())),
            XE5::V0(x) => Val::choice("V0", Some(x.to_v())),
            XE5::V1(x) => Val::choice("V1", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V3" => XE5::V3(Model::from_v(p.unwrap())),
            "V2" => XE5::V2(Model::from_v(p.unwrap())),
            "V0" => XE5::V0(Model::from_v(p.unwrap())),
            "V1" => XE5::V1(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XS6 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.z.to_v(), self.a.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS6 { z: Model::from_v(&f[0]), a: Model::from_v(&f[1]) } }
}
impl Model for XS7 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.visitor.to_v(), self.a.to_v(), self.out.to_v(), self.x.to_v(), self.Upper.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS7 { visitor: Model::from_v(&f[0]), a: Model::from_v(&f[1]), out: Model::from_v(&f[2]), x: Model::from_v(&f[3]), Upper: Model::from_v(&f[4]) } }
}
impl Model for XE8 {
    fn to_v(&self) -> Val {
        match self {
            XE8::V0(x) => Val::choice("V0", Some(x.to_v())),
            XE8::V1(x) => Val::choice("V1", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XE8::V0(Model::from_v(p.unwrap())),
            "V1" => XE8::V1(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XS9 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.x10.to_v(), self.r#fn.to_v(), self.x1.to_v(), self.a.to_v(), self.zz_top.to_v(), self.r#use.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS9 { x10: Model::from_v(&f[0]), r#fn: Model::from_v(&f[1]), x1: Model::from_v(&f[2]), a: Model::from_v(&f[3]), zz_top: Model::from_v(&f[4]), r#use: Model::from_v(&f[5]) } }
}
impl Model for XS10 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.zz_top.to_v(), self.present.to_v(), self.r#use.to_v(), self.z.to_v(), self.out.to_v(), self.x.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS10 { zz_top: Model::from_v(&f[0]), present: Model::from_v(&f[1]), r#use: Model::from_v(&f[2]), z: Model::from_v(&f[3]), out: Model::from_v(&f[4]), x: Model::from_v(&f[5]) } }
}
impl Model for XE11 {
    fn to_v(&self) -> Val {
        match self {
            XE11::V0(x) => Val::choice("V0", Some(x.to_v())),
            XE11::V1(x) => Val::choice("V1", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XE11::V0(Model::from_v(p.unwrap())),
            "V1" => XE11::V1(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XS12 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.r#use.to_v(), self.x10.to_v(), self.ab.to_v(), self.r#in.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS12 { r#use: Model::from_v(&f[0]), x10: Model::from_v(&f[1]), ab: Model::from_v(&f[2]), r#in: Model::from_v(&f[3]) } }
}
impl Model for XS13 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.r#type.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS13 { r#type: Model::from_v(&f[0]) } }
}
impl Model for XE14 {
    fn to_v(&self) -> Val {
        match self {
            XE14::V0 => Val::choice("V0", None),
            XE14::V3(x) => Val::choice("V3", Some(x.to_v())),
            XE14::V1(x) => Val::choice("V1", Some(x.to_v())),
            XE14::V2(x) => Val::choice("V2", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XE14::V0,
            "V3" => XE14::V3(Model::from_v(p.unwrap())),
            "V1" => XE14::V1(Model::from_v(p.unwrap())),
            "V2" => XE14::V2(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XS15 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.lang.to_v(), self.out.to_v(), self.a.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS15 { lang: Model::from_v(&f[0]), out: Model::from_v(&f[1]), a: Model::from_v(&f[2]) } }
}
impl Model for XS16 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.c.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS16 { c: Model::from_v(&f[0]) } }
}
impl Model for XE17 {
    fn to_v(&self) -> Val {
        match self {
            XE17::V3(x) => Val::choice("V3", Some(x.to_v())),
            XE17::V1(x) => Val::choice("V1", Some(x.to_v())),
            XE17::V0(x) => Val::choice("V0", Some(x.to_v())),
            XE17::V2(x) => Val::choice("V2", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V3" => XE17::V3(Model::from_v(p.unwrap())),
            "V1" => XE17::V1(Model::from_v(p.unwrap())),
            "V0" => XE17::V0(Model::from_v(p.unwrap())),
            "V2" => XE17::V2(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XS18 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.a.to_v(), self.r#type.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS18 { a: Model::from_v(&f[0]), r#type: Model::from_v(&f[1]) } }
}
impl Model for XS19 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.id.to_v(), self.visitor.to_v(), self.x10.to_v(), self.value.to_v(), self.a.to_v(), self.x2.to_v(), self.name.to_v(), self.r#use.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS19 { id: Model::from_v(&f[0]), visitor: Model::from_v(&f[1]), x10: Model::from_v(&f[2]), value: Model::from_v(&f[3]), a: Model::from_v(&f[4]), x2: Model::from_v(&f[5]), name: Model::from_v(&f[6]), r#use: Model::from_v(&f[7]) } }
}
impl Model for XE20 {
    fn to_v(&self) -> Val {
        match self {
            XE20::V0(x) => Val::choice("V0", Some(x.to_v())),
            XE20::V1(x) => Val::choice("V1", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XE20::V0(Model::from_v(p.unwrap())),
            "V1" => XE20::V1(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XS21 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.x.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS21 { x: Model::from_v(&f[0]) } }
}
impl Model for XS22 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.zz_top.to_v(), self.r#fn.to_v(), self.b.to_v(), self.r#use.to_v(), self.r#in.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS22 { zz_top: Model::from_v(&f[0]), r#fn: Model::from_v(&f[1]), b: Model::from_v(&f[2]), r#use: Model::from_v(&f[3]), r#in: Model::from_v(&f[4]) } }
}
impl Model for XE23 {
    fn to_v(&self) -> Val {
        match self {
            XE23::V2(x) => Val::choice("V2", Some(x.to_v())),
            XE23::V4 => Val::choice("V4", None),
            XE23::V1(x) => Val::choice("V1", Some(x.to_v())),
            XE23::V5(x) => Val::choice("V5", Some(x.to_v())),
            XE23::V3(x) => Val::choice("V3", Some(x.to_v())),
            XE23::V0(x) => Val::choice("V0", Some(x.to_v())),
            XE23::V6(x) => Val::choice("V6", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V2" => XE23::V2(Model::from_v(p.unwrap())),
            "V4" => XE23::V4,
            "V1" => XE23::V1(Model::from_v(p.unwrap())),
            "V5" => XE23::V5(Model::from_v(p.unwrap())),
            "V3" => XE23::V3(Model::from_v(p.unwrap())),
            "V0" => XE23::V0(Model::from_v(p.unwrap())),
            "V6" => XE23::V6(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XS24 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.a.to_v(), self.r#type.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS24 { a: Model::from_v(&f[0]), r#type: Model::from_v(&f[1]) } }
}
impl Model for XS25 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.name.to_v(), self.visitor.to_v(), self._v.to_v(), self.lang.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS25 { name: Model::from_v(&f[0]), visitor: Model::from_v(&f[1]), _v: Model::from_v(&f[2]), lang: Model::from_v(&f[3]) } }
}
impl Model for XE26 {
    fn to_v(&self) -> Val {
        match self {
            XE26::V0(x) => Val::choice("V0", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XE26::V0(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XS27 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.r#use.to_v(), self.r#match.to_v(), self.present.to_v(), self.c.to_v(), self.b.to_v(), self.a.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS27 { r#use: Model::from_v(&f[0]), r#match: Model::from_v(&f[1]), present: Model::from_v(&f[2]), c: Model::from_v(&f[3]), b: Model::from_v(&f[4]), a: Model::from_v(&f[5]) } }
}
impl Model for XS28 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.x10.to_v(), self.out.to_v(), self.a.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS28 { x10: Model::from_v(&f[0]), out: Model::from_v(&f[1]), a: Model::from_v(&f[2]) } }
}
impl Model for XE29 {
    fn to_v(&self) -> Val {
        match self {
            XE29::V1(x) => Val::choice("V1", Some(x.to_v())),
            XE29::V0(x) => Val::choice("V0", Some(x.to_v())),
            XE29::V2(x) => Val::choice("V2", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V1" => XE29::V1(Model::from_v(p.unwrap())),
            "V0" => XE29::V0(Model::from_v(p.unwrap())),
            "V2" => XE29::V2(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XS30 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.b.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS30 { b: Model::from_v(&f[0]) } }
}
impl Model for XS31 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.r#type.to_v(), self.present.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS31 { r#type: Model::from_v(&f[0]), present: Model::from_v(&f[1]) } }
}
impl Model for XE32 {
    fn to_v(&self) -> Val {
        match self {
            XE32::V5(x) => Val::choice("V5", Some(x.to_v())),
            XE32::V4 => Val::choice("V4", None),
            XE32::V6(x) => Val::choice("V6", Some(x.to_v())),
            XE32::V0(x) => Val::choice("V0", Some(x.to_v())),
            XE32::V1(x) => Val::choice("V1", Some(x.to_v())),
            XE32::V2 => Val::choice("V2", None),
            XE32::V3(x) => Val::choice("V3", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V5" => XE32::V5(Model::from_v(p.unwrap())),
            "V4" => XE32::V4,
            "V6" => XE32::V6(Model::from_v(p.unwrap())),
            "V0" => XE32::V0(Model::from_v(p.unwrap())),
            "V1" => XE32::V1(Model::from_v(p.unwrap())),
            "V2" => XE32::V2,
            "V3" => XE32::V3(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XS33 {
    fn to_v(&self) -> Val { Val::Fields(vec![self._v.to_v(), self.z.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XS33 { _v: Model::from_v(&f[0]), z: Model::from_v(&f[1]) } }
}
impl Model for XSWide {
    fn to_v(&self) -> Val { Val::Fields(vec![self.f0.to_v(), self.f1.to_v(), self.f2.to_v(), self.f3.to_v(), self.f4.to_v(), self.f5.to_v(), self.f6.to_v(), self.f7.to_v(), self.f8.to_v(), self.f9.to_v(), self.f10.to_v(), self.f11.to_v(), self.f12.to_v(), self.f13.to_v(), self.f14.to_v(), self.f15.to_v(), self.f16.to_v(), self.f17.to_v(), self.f18.to_v(), self.f19.to_v(), self.f20.to_v(), self.f21.to_v(), self.f22.to_v(), self.f23.to_v(), self.f24.to_v(), self.f25.to_v(), self.f26.to_v(), self.f27.to_v(), self.f28.to_v(), self.f29.to_v(), self.f30.to_v(), self.f31.to_v(), self.f32.to_v(), self.f33.to_v(), self.f34.to_v(), self.f35.to_v(), self.f36.to_v(), self.f37.to_v(), self.f38.to_v(), self.f39.to_v(), self.f40.to_v(), self.f41.to_v(), self.f42.to_v(), self.f43.to_v(), self.f44.to_v(), self.f45.to_v(), self.f46.to_v(), self.f47.to_v(), self.f48.to_v(), self.f49.to_v(), self.f50.to_v(), self.f51.to_v(), self.f52.to_v(), self.f53.to_v(), self.f54.to_v(), self.f55.to_v(), self.f56.to_v(), self.f57.to_v(), self.f58.to_v(), self.f59.to_v(), self.f60.to_v(), self.f61.to_v(), self.f62.to_v(), self.f63.to_v(), self.f64.to_v(), self.f65.to_v(), self.f66.to_v(), self.f67.to_v(), self.f68.to_v(), self.f69.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XSWide { f0: Model::from_v(&f[0]), f1: Model::from_v(&f[1]), f2: Model::from_v(&f[2]), f3: Model::from_v(&f[3]), f4: Model::from_v(&f[4]), f5: Model::from_v(&f[5]), f6: Model::from_v(&f[6]), f7: Model::from_v(&f[7]), f8: Model::from_v(&f[8]), f9: Model::from_v(&f[9]), f10: Model::from_v(&f[10]), f11: Model::from_v(&f[11]), f12: Model::from_v(&f[12]), f13: Model::from_v(&f[13]), f14: Model::from_v(&f[14]), f15: Model::from_v(&f[15]), f16: Model::from_v(&f[16]), f17: Model::from_v(&f[17]), f18: Model::from_v(&f[18]), f19: Model::from_v(&f[19]), f20: Model::from_v(&f[20]), f21: Model::from_v(&f[21]), f22: Model::from_v(&f[22]), f23: Model::from_v(&f[23]), f24: Model::from_v(&f[24]), f25: Model::from_v(&f[25]), f26: Model::from_v(&f[26]), f27: Model::from_v(&f[27]), f28: Model::from_v(&f[28]), f29: Model::from_v(&f[29]), f30: Model::from_v(&f[30]), f31: Model::from_v(&f[31]), f32: Model::from_v(&f[32]), f33: Model::from_v(&f[33]), f34: Model::from_v(&f[34]), f35: Model::from_v(&f[35]), f36: Model::from_v(&f[36]), f37: Model::from_v(&f[37]), f38: Model::from_v(&f[38]), f39: Model::from_v(&f[39]), f40: Model::from_v(&f[40]), f41: Model::from_v(&f[41]), f42: Model::from_v(&f[42]), f43: Model::from_v(&f[43]), f44: Model::from_v(&f[44]), f45: Model::from_v(&f[45]), f46: Model::from_v(&f[46]), f47: Model::from_v(&f[47]), f48: Model::from_v(&f[48]), f49: Model::from_v(&f[49]), f50: Model::from_v(&f[50]), f51: Model::from_v(&f[51]), f52: Model::from_v(&f[52]), f53: Model::from_v(&f[53]), f54: Model::from_v(&f[54]), f55: Model::from_v(&f[55]), f56: Model::from_v(&f[56]), f57: Model::from_v(&f[57]), f58: Model::from_v(&f[58]), f59: Model::from_v(&f[59]), f60: Model::from_v(&f[60]), f61: Model::from_v(&f[61]), f62: Model::from_v(&f[62]), f63: Model::from_v(&f[63]), f64: Model::from_v(&f[64]), f65: Model::from_v(&f[65]), f66: Model::from_v(&f[66]), f67: Model::from_v(&f[67]), f68: Model::from_v(&f[68]), f69: Model::from_v(&f[69]) } }
}
impl Model for XSHuge {
    fn to_v(&self) -> Val { Val::Fields(vec![self.f0.to_v(), self.f1.to_v(), self.f2.to_v(), self.f3.to_v(), self.f4.to_v(), self.f5.to_v(), self.f6.to_v(), self.f7.to_v(), self.f8.to_v(), self.f9.to_v(), self.f10.to_v(), self.f11.to_v(), self.f12.to_v(), self.f13.to_v(), self.f14.to_v(), self.f15.to_v(), self.f16.to_v(), self.f17.to_v(), self.f18.to_v(), self.f19.to_v(), self.f20.to_v(), self.f21.to_v(), self.f22.to_v(), self.f23.to_v(), self.f24.to_v(), self.f25.to_v(), self.f26.to_v(), self.f27.to_v(), self.f28.to_v(), self.f29.to_v(), self.f30.to_v(), self.f31.to_v(), self.f32.to_v(), self.f33.to_v(), self.f34.to_v(), self.f35.to_v(), self.f36.to_v(), self.f37.to_v(), self.f38.to_v(), self.f39.to_v(), self.f40.to_v(), self.f41.to_v(), self.f42.to_v(), self.f43.to_v(), self.f44.to_v(), self.f45.to_v(), self.f46.to_v(), self.f47.to_v(), self.f48.to_v(), self.f49.to_v(), self.f50.to_v(), self.f51.to_v(), self.f52.to_v(), self.f53.to_v(), self.f54.to_v(), self.f55.to_v(), self.f56.to_v(), self.f57.to_v(), self.f58.to_v(), self.f59.to_v(), self.f60.to_v(), self.f61.to_v(), self.f62.to_v(), self.f63.to_v(), self.f64.to_v(), self.f65.to_v(), self.f66.to_v(), self.f67.to_v(), self.f68.to_v(), self.f69.to_v(), self.f70.to_v(), self.f71.to_v(), self.f72.to_v(), self.f73.to_v(), self.f74.to_v(), self.f75.to_v(), self.f76.to_v(), self.f77.to_v(), self.f78.to_v(), self.f79.to_v(), self.f80.to_v(), self.f81.to_v(), self.f82.to_v(), self.f83.to_v(), self.f84.to_v(), self.f85.to_v(), self.f86.to_v(), self.f87.to_v(), self.f88.to_v(), self.f89.to_v(), self.f90.to_v(), self.f91.to_v(), self.f92.to_v(), self.f93.to_v(), self.f94.to_v(), self.f95.to_v(), self.f96.to_v(), self.f97.to_v(), self.f98.to_v(), self.f99.to_v(), self.f100.to_v(), self.f101.to_v(), self.f102.to_v(), self.f103.to_v(), self.f104.to_v(), self.f105.to_v(), self.f106.to_v(), self.f107.to_v(), self.f108.to_v(), self.f109.to_v(), self.f110.to_v(), self.f111.to_v(), self.f112.to_v(), self.f113.to_v(), self.f114.to_v(), self.f115.to_v(), self.f116.to_v(), self.f117.to_v(), self.f118.to_v(), self.f119.to_v(), self.f120.to_v(), self.f121.to_v(), self.f122.to_v(), self.f123.to_v(), self.f124.to_v(), self.f125.to_v(), self.f126.to_v(), self.f127.to_v(), self.f128.to_v(), self.f129.to_v(), self.f130.to_v(), self.f131.to_v(), self.f132.to_v(), self.f133.to_v(), self.f134.to_v(), self.f135.to_v(), self.f136.to_v(), self.f137.to_v(), self.f138.to_v(), self.f139.to_v(), self.f140.to_v(), self.f141.to_v(), self.f142.to_v(), self.f143.to_v(), self.f144.to_v(), self.f145.to_v(), self.f146.to_v(), self.f147.to_v(), self.f148.to_v(), self.f149.to_v(), self.f150.to_v(), self.f151.to_v(), self.f152.to_v(), self.f153.to_v(), self.f154.to_v(), self.f155.to_v(), self.f156.to_v(), self.f157.to_v(), self.f158.to_v(), self.f159.to_v(), self.f160.to_v(), self.f161.to_v(), self.f162.to_v(), self.f163.to_v(), self.f164.to_v(), self.f165.to_v(), self.f166.to_v(), self.f167.to_v(), self.f168.to_v(), self.f169.to_v(), self.f170.to_v(), self.f171.to_v(), self.f172.to_v(), self.f173.to_v(), self.f174.to_v(), self.f175.to_v(), self.f176.to_v(), self.f177.to_v(), self.f178.to_v(), self.f179.to_v(), self.f180.to_v(), self.f181.to_v(), self.f182.to_v(), self.f183.to_v(), self.f184.to_v(), self.f185.to_v(), self.f186.to_v(), self.f187.to_v(), self.f188.to_v(), self.f189.to_v(), self.f190.to_v(), self.f191.to_v(), self.f192.to_v(), self.f193.to_v(), self.f194.to_v(), self.f195.to_v(), self.f196.to_v(), self.f197.to_v(), self.f198.to_v(), self.f199.to_v(), self.f200.to_v(), self.f201.to_v(), self.f202.to_v(), self.f203.to_v(), self.f204.to_v(), self.f205.to_v(), self.f206.to_v(), self.f207.to_v(), self.f208.to_v(), self.f209.to_v(), self.f210.to_v(), self.f211.to_v(), self.f212.to_v(), self.f213.to_v(), self.f214.to_v(), self.f215.to_v(), self.f216.to_v(), self.f217.to_v(), self.f218.to_v(), self.f219.to_v(), self.f220.to_v(), self.f221.to_v(), self.f222.to_v(), self.f223.to_v(), self.f224.to_v(), self.f225.to_v(), self.f226.to_v(), self.f227.to_v(), self.f228.to_v(), self.f229.to_v(), self.f230.to_v(), self.f231.to_v(), self.f232.to_v(), self.f233.to_v(), self.f234.to_v(), self.f235.to_v(), self.f236.to_v(), self.f237.to_v(), self.f238.to_v(), self.f239.to_v(), self.f240.to_v(), self.f241.to_v(), self.f242.to_v(), self.f243.to_v(), self.f244.to_v(), self.f245.to_v(), self.f246.to_v(), self.f247.to_v(), self.f248.to_v(), self.f249.to_v(), self.f250.to_v(), self.f251.to_v(), self.f252.to_v(), self.f253.to_v(), self.f254.to_v(), self.f255.to_v(), self.f256.to_v(), self.f257.to_v(), self.f258.to_v(), self.f259.to_v(), self.f260.to_v(), self.f261.to_v(), self.f262.to_v(), self.f263.to_v(), self.f264.to_v(), self.f265.to_v(), self.f266.to_v(), self.f267.to_v(), self.f268.to_v(), self.f269.to_v(), self.f270.to_v(), self.f271.to_v(), self.f272.to_v(), self.f273.to_v(), self.f274.to_v(), self.f275.to_v(), self.f276.to_v(), self.f277.to_v(), self.f278.to_v(), self.f279.to_v(), self.f280.to_v(), self.f281.to_v(), self.f282.to_v(), self.f283.to_v(), self.f284.to_v(), self.f285.to_v(), self.f286.to_v(), self.f287.to_v(), self.f288.to_v(), self.f289.to_v(), self.f290.to_v(), self.f291.to_v(), self.f292.to_v(), self.f293.to_v(), self.f294.to_v(), self.f295.to_v(), self.f296.to_v(), self.f297.to_v(), self.f298.to_v(), self.f299.to_v(), self.f300.to_v(), self.f301.to_v(), self.f302.to_v(), self.f303.to_v(), self.f304.to_v(), self.f305.to_v(), self.f306.to_v(), self.f307.to_v(), self.f308.to_v(), self.f309.to_v(), self.f310.to_v(), self.f311.to_v(), self.f312.to_v(), self.f313.to_v(), self.f314.to_v(), self.f315.to_v(), self.f316.to_v(), self.f317.to_v(), self.f318.to_v(), self.f319.to_v(), self.f320.to_v(), self.f321.to_v(), self.f322.to_v(), self.f323.to_v(), self.f324.to_v(), self.f325.to_v(), self.f326.to_v(), self.f327.to_v(), self.f328.to_v(), self.f329.to_v(), self.f330.to_v(), self.f331.to_v(), self.f332.to_v(), self.f333.to_v(), self.f334.to_v(), self.f335.to_v(), self.f336.to_v(), self.f337.to_v(), self.f338.to_v(), self.f339.to_v(), self.f340.to_v(), self.f341.to_v(), self.f342.to_v(), self.f343.to_v(), self.f344.to_v(), self.f345.to_v(), self.f346.to_v(), self.f347.to_v(), self.f348.to_v(), self.f349.to_v(), self.f350.to_v(), self.f351.to_v(), self.f352.to_v(), self.f353.to_v(), self.f354.to_v(), self.f355.to_v(), self.f356.to_v(), self.f357.to_v(), self.f358.to_v(), self.f359.to_v(), self.f360.to_v(), self.f361.to_v(), self.f362.to_v(), self.f363.to_v(), self.f364.to_v(), self.f365.to_v(), self.f366.to_v(), self.f367.to_v(), self.f368.to_v(), self.f369.to_v(), self.f370.to_v(), self.f371.to_v(), self.f372.to_v(), self.f373.to_v(), self.f374.to_v(), self.f375.to_v(), self.f376.to_v(), self.f377.to_v(), self.f378.to_v(), self.f379.to_v(), self.f380.to_v(), self.f381.to_v(), self.f382.to_v(), self.f383.to_v(), self.f384.to_v(), self.f385.to_v(), self.f386.to_v(), self.f387.to_v(), self.f388.to_v(), self.f389.to_v(), self.f390.to_v(), self.f391.to_v(), self.f392.to_v(), self.f393.to_v(), self.f394.to_v(), self.f395.to_v(), self.f396.to_v(), self.f397.to_v(), self.f398.to_v(), self.f399.to_v(), self.f400.to_v(), self.f401.to_v(), self.f402.to_v(), self.f403.to_v(), self.f404.to_v(), self.f405.to_v(), self.f406.to_v(), self.f407.to_v(), self.f408.to_v(), self.f409.to_v(), self.f410.to_v(), self.f411.to_v(), self.f412.to_v(), self.f413.to_v(), self.f414.to_v(), self.f415.to_v(), self.f416.to_v(), self.f417.to_v(), self.f418.to_v(), self.f419.to_v(), self.f420.to_v(), self.f421.to_v(), self.f422.to_v(), self.f423.to_v(), self.f424.to_v(), self.f425.to_v(), self.f426.to_v(), self.f427.to_v(), self.f428.to_v(), self.f429.to_v(), self.f430.to_v(), self.f431.to_v(), self.f432.to_v(), self.f433.to_v(), self.f434.to_v(), self.f435.to_v(), self.f436.to_v(), self.f437.to_v(), self.f438.to_v(), self.f439.to_v(), self.f440.to_v(), self.f441.to_v(), self.f442.to_v(), self.f443.to_v(), self.f444.to_v(), self.f445.to_v(), self.f446.to_v(), self.f447.to_v(), self.f448.to_v(), self.f449.to_v(), self.f450.to_v(), self.f451.to_v(), self.f452.to_v(), self.f453.to_v(), self.f454.to_v(), self.f455.to_v(), self.f456.to_v(), self.f457.to_v(), self.f458.to_v(), self.f459.to_v(), self.f460.to_v(), self.f461.to_v(), self.f462.to_v(), self.f463.to_v(), self.f464.to_v(), self.f465.to_v(), self.f466.to_v(), self.f467.to_v(), self.f468.to_v(), self.f469.to_v(), self.f470.to_v(), self.f471.to_v(), self.f472.to_v(), self.f473.to_v(), self.f474.to_v(), self.f475.to_v(), self.f476.to_v(), self.f477.to_v(), self.f478.to_v(), self.f479.to_v(), self.f480.to_v(), self.f481.to_v(), self.f482.to_v(), self.f483.to_v(), self.f484.to_v(), self.f485.to_v(), self.f486.to_v(), self.f487.to_v(), self.f488.to_v(), self.f489.to_v(), self.f490.to_v(), self.f491.to_v(), self.f492.to_v(), self.f493.to_v(), self.f494.to_v(), self.f495.to_v(), self.f496.to_v(), self.f497.to_v(), self.f498.to_v(), self.f499.to_v(), self.f500.to_v(), self.f501.to_v(), self.f502.to_v(), self.f503.to_v(), self.f504.to_v(), self.f505.to_v(), self.f506.to_v(), self.f507.to_v(), self.f508.to_v(), self.f509.to_v(), self.f510.to_v(), self.f511.to_v(), self.f512.to_v(), self.f513.to_v(), self.f514.to_v(), self.f515.to_v(), self.f516.to_v(), self.f517.to_v(), self.f518.to_v(), self.f519.to_v(), self.f520.to_v(), self.f521.to_v(), self.f522.to_v(), self.f523.to_v(), self.f524.to_v(), self.f525.to_v(), self.f526.to_v(), self.f527.to_v(), self.f528.to_v(), self.f529.to_v(), self.f530.to_v(), self.f531.to_v(), self.f532.to_v(), self.f533.to_v(), self.f534.to_v(), self.f535.to_v(), self.f536.to_v(), self.f537.to_v(), self.f538.to_v(), self.f539.to_v(), self.f540.to_v(), self.f541.to_v(), self.f542.to_v(), self.f543.to_v(), self.f544.to_v(), self.f545.to_v(), self.f546.to_v(), self.f547.to_v(), self.f548.to_v(), self.f549.to_v(), self.f550.to_v(), self.f551.to_v(), self.f552.to_v(), self.f553.to_v(), self.f554.to_v(), self.f555.to_v(), self.f556.to_v(), self.f557.to_v(), self.f558.to_v(), self.f559.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XSHuge { f0: Model::from_v(&f[0]), f1: Model::from_v(&f[1]), f2: Model::from_v(&f[2]), f3: Model::from_v(&f[3]), f4: Model::from_v(&f[4]), f5: Model::from_v(&f[5]), f6: Model::from_v(&f[6]), f7: Model::from_v(&f[7]), f8: Model::from_v(&f[8]), f9: Model::from_v(&f[9]), f10: Model::from_v(&f[10]), f11: Model::from_v(&f[11]), f12: Model::from_v(&f[12]), f13: Model::from_v(&f[13]), f14: Model::from_v(&f[14]), f15: Model::from_v(&f[15]), f16: Model::from_v(&f[16]), f17: Model::from_v(&f[17]), f18: Model::from_v(&f[18]), f19: Model::from_v(&f[19]), f20: Model::from_v(&f[20]), f21: Model::from_v(&f[21]), f22: Model::from_v(&f[22]), f23: Model::from_v(&f[23]), f24: Model::from_v(&f[24]), f25: Model::from_v(&f[25]), f26: Model::from_v(&f[26]), f27: Model::from_v(&f[27]), f28: Model::from_v(&f[28]), f29: Model::from_v(&f[29]), f30: Model::from_v(&f[30]), f31: Model::from_v(&f[31]), f32: Model::from_v(&f[32]), f33: Model::from_v(&f[33]), f34: Model::from_v(&f[34]), f35: Model::from_v(&f[35]), f36: Model::from_v(&f[36]), f37: Model::from_v(&f[37]), f38: Model::from_v(&f[38]), f39: Model::from_v(&f[39]), f40: Model::from_v(&f[40]), f41: Model::from_v(&f[41]), f42: Model::from_v(&f[42]), f43: Model::from_v(&f[43]), f44: Model::from_v(&f[44]), f45: Model::from_v(&f[45]), f46: Model::from_v(&f[46]), f47: Model::from_v(&f[47]), f48: Model::from_v(&f[48]), f49: Model::from_v(&f[49]), f50: Model::from_v(&f[50]), f51: Model::from_v(&f[51]), f52: Model::from_v(&f[52]), f53: Model::from_v(&f[53]), f54: Model::from_v(&f[54]), f55: Model::from_v(&f[55]), f56: Model::from_v(&f[56]), f57: Model::from_v(&f[57]), f58: Model::from_v(&f[58]), f59: Model::from_v(&f[59]), f60: Model::from_v(&f[60]), f61: Model::from_v(&f[61]), f62: Model::from_v(&f[62]), f63: Model::from_v(&f[63]), f64: Model::from_v(&f[64]), f65: Model::from_v(&f[65]), f66: Model::from_v(&f[66]), f67: Model::from_v(&f[67]), f68: Model::from_v(&f[68]), f69: Model::from_v(&f[69]), f70: Model::from_v(&f[70]), f71: Model::from_v(&f[71]), f72: Model::from_v(&f[72]), f73: Model::from_v(&f[73]), f74: Model::from_v(&f[74]), f75: Model::from_v(&f[75]), f76: Model::from_v(&f[76]), f77: Model::from_v(&f[77]), f78: Model::from_v(&f[78]), f79: Model::from_v(&f[79]), f80: Model::from_v(&f[80]), f81: Model::from_v(&f[81]), f82: Model::from_v(&f[82]), f83: Model::from_v(&f[83]), f84: Model::from_v(&f[84]), f85: Model::from_v(&f[85]), f86: Model::from_v(&f[86]), f87: Model::from_v(&f[87]), f88: Model::from_v(&f[88]), f89: Model::from_v(&f[89]), f90: Model::from_v(&f[90]), f91: Model::from_v(&f[91]), f92: Model::from_v(&f[92]), f93: Model::from_v(&f[93]), f94: Model::from_v(&f[94]), f95: Model::from_v(&f[95]), f96: Model::from_v(&f[96]), f97: Model::from_v(&f[97]), f98: Model::from_v(&f[98]), f99: Model::from_v(&f[99]), f100: Model::from_v(&f[100]), f101: Model::from_v(&f[101]), f102: Model::from_v(&f[102]), f103: Model::from_v(&f[103]), f104: Model::from_v(&f[104]), f105: Model::from_v(&f[105]), f106: Model::from_v(&f[106]), f107: Model::from_v(&f[107]), f108: Model::from_v(&f[108]), f109: Model::from_v(&f[109]), f110: Model::from_v(&f[110]), f111: Model::from_v(&f[111]), f112: Model::from_v(&f[112]), f113: Model::from_v(&f[113]), f114: Model::from_v(&f[114]), f115: Model::from_v(&f[115]), f116: Model::from_v(&f[116]), f117: Model::from_v(&f[117]), f118: Model::from_v(&f[118]), f119: Model::from_v(&f[119]), f120: Model::from_v(&f[120]), f121: Model::from_v(&f[121]), f122: Model::from_v(&f[122]), f123: Model::from_v(&f[123]), f124: Model::from_v(&f[124]), f125: Model::from_v(&f[125]), f126: Model::from_v(&f[126]), f127: Model::from_v(&f[127]), f128: Model::from_v(&f[128]), f129: Model::from_v(&f[129]), f130: Model::from_v(&f[130]), f131: Model::from_v(&f[131]), f132: Model::from_v(&f[132]), f133: Model::from_v(&f[133]), f134: Model::from_v(&f[134]), f135: Model::from_v(&f[135]), f136: Model::from_v(&f[136]), f137: Model::from_v(&f[137]), f138: Model::from_v(&f[138]), f139: Model::from_v(&f[139]), f140: Model::from_v(&f[140]), f141: Model::from_v(&f[141]), f142: Model::from_v(&f[142]), f143: Model::from_v(&f[143]), f144: Model::from_v(&f[144]), f145: Model::from_v(&f[145]), f146: Model::from_v(&f[146]), f147: Model::from_v(&f[147]), f148: Model::from_v(&f[148]), f149: Model::from_v(&f[149]), f150: Model::from_v(&f[150]), f151: Model::from_v(&f[151]), f152: Model::from_v(&f[152]), f153: Model::from_v(&f[153]), f154: Model::from_v(&f[154]), f155: Model::from_v(&f[155]), f156: Model::from_v(&f[156]), f157: Model::from_v(&f[157]), f158: Model::from_v(&f[158]), f159: Model::from_v(&f[159]), f160: Model::from_v(&f[160]), f161: Model::from_v(&f[161]), f162: Model::from_v(&f[162]), f163: Model::from_v(&f[163]), f164: Model::from_v(&f[164]), f165: Model::from_v(&f[165]), f166: Model::from_v(&f[166]), f167: Model::from_v(&f[167]), f168: Model::from_v(&f[168]), f169: Model::from_v(&f[169]), f170: Model::from_v(&f[170]), f171: Model::from_v(&f[171]), f172: Model::from_v(&f[172]), f173: Model::from_v(&f[173]), f174: Model::from_v(&f[174]), f175: Model::from_v(&f[175]), f176: Model::from_v(&f[176]), f177: Model::from_v(&f[177]), f178: Model::from_v(&f[178]), f179: Model::from_v(&f[179]), f180: Model::from_v(&f[180]), f181: Model::from_v(&f[181]), f182: Model::from_v(&f[182]), f183: Model::from_v(&f[183]), f184: Model::from_v(&f[184]), f185: Model::from_v(&f[185]), f186: Model::from_v(&f[186]), f187: Model::from_v(&f[187]), f188: Model::from_v(&f[188]), f189: Model::from_v(&f[189]), f190: Model::from_v(&f[190]), f191: Model::from_v(&f[191]), f192: Model::from_v(&f[192]), f193: Model::from_v(&f[193]), f194: Model::from_v(&f[194]), f195: Model::from_v(&f[195]), f196: Model::from_v(&f[196]), f197: Model::from_v(&f[197]), f198: Model::from_v(&f[198]), f199: Model::from_v(&f[199]), f200: Model::from_v(&f[200]), f201: Model::from_v(&f[201]), f202: Model::from_v(&f[202]), f203: Model::from_v(&f[203]), f204: Model::from_v(&f[204]), f205: Model::from_v(&f[205]), f206: Model::from_v(&f[206]), f207: Model::from_v(&f[207]), f208: Model::from_v(&f[208]), f209: Model::from_v(&f[209]), f210: Model::from_v(&f[210]), f211: Model::from_v(&f[211]), f212: Model::from_v(&f[212]), f213: Model::from_v(&f[213]), f214: Model::from_v(&f[214]), f215: Model::from_v(&f[215]), f216: Model::from_v(&f[216]), f217: Model::from_v(&f[217]), f218: Model::from_v(&f[218]), f219: Model::from_v(&f[219]), f220: Model::from_v(&f[220]), f221: Model::from_v(&f[221]), f222: Model::from_v(&f[222]), f223: Model::from_v(&f[223]), f224: Model::from_v(&f[224]), f225: Model::from_v(&f[225]), f226: Model::from_v(&f[226]), f227: Model::from_v(&f[227]), f228: Model::from_v(&f[228]), f229: Model::from_v(&f[229]), f230: Model::from_v(&f[230]), f231: Model::from_v(&f[231]), f232: Model::from_v(&f[232]), f233: Model::from_v(&f[233]), f234: Model::from_v(&f[234]), f235: Model::from_v(&f[235]), f236: Model::from_v(&f[236]), f237: Model::from_v(&f[237]), f238: Model::from_v(&f[238]), f239: Model::from_v(&f[239]), f240: Model::from_v(&f[240]), f241: Model::from_v(&f[241]), f242: Model::from_v(&f[242]), f243: Model::from_v(&f[243]), f244: Model::from_v(&f[244]), f245: Model::from_v(&f[245]), f246: Model::from_v(&f[246]), f247: Model::from_v(&f[247]), f248: Model::from_v(&f[248]), f249: Model::from_v(&f[249]), f250: Model::from_v(&f[250]), f251: Model::from_v(&f[251]), f252: Model::from_v(&f[252]), f253: Model::from_v(&f[253]), f254: Model::from_v(&f[254]), f255: Model::from_v(&f[255]), f256: Model::from_v(&f[256]), f257: Model::from_v(&f[257]), f258: Model::from_v(&f[258]), f259: Model::from_v(&f[259]), f260: Model::from_v(&f[260]), f261: Model::from_v(&f[261]), f262: Model::from_v(&f[262]), f263: Model::from_v(&f[263]), f264: Model::from_v(&f[264]), f265: Model::from_v(&f[265]), f266: Model::from_v(&f[266]), f267: Model::from_v(&f[267]), f268: Model::from_v(&f[268]), f269: Model::from_v(&f[269]), f270: Model::from_v(&f[270]), f271: Model::from_v(&f[271]), f272: Model::from_v(&f[272]), f273: Model::from_v(&f[273]), f274: Model::from_v(&f[274]), f275: Model::from_v(&f[275]), f276: Model::from_v(&f[276]), f277: Model::from_v(&f[277]), f278: Model::from_v(&f[278]), f279: Model::from_v(&f[279]), f280: Model::from_v(&f[280]), f281: Model::from_v(&f[281]), f282: Model::from_v(&f[282]), f283: Model::from_v(&f[283]), f284: Model::from_v(&f[284]), f285: Model::from_v(&f[285]), f286: Model::from_v(&f[286]), f287: Model::from_v(&f[287]), f288: Model::from_v(&f[288]), f289: Model::from_v(&f[289]), f290: Model::from_v(&f[290]), f291: Model::from_v(&f[291]), f292: Model::from_v(&f[292]), f293: Model::from_v(&f[293]), f294: Model::from_v(&f[294]), f295: Model::from_v(&f[295]), f296: Model::from_v(&f[296]), f297: Model::from_v(&f[297]), f298: Model::from_v(&f[298]), f299: Model::from_v(&f[299]), f300: Model::from_v(&f[300]), f301: Model::from_v(&f[301]), f302: Model::from_v(&f[302]), f303: Model::from_v(&f[303]), f304: Model::from_v(&f[304]), f305: Model::from_v(&f[305]), f306: Model::from_v(&f[306]), f307: Model::from_v(&f[307]), f308: Model::from_v(&f[308]), f309: Model::from_v(&f[309]), f310: Model::from_v(&f[310]), f311: Model::from_v(&f[311]), f312: Model::from_v(&f[312]), f313: Model::from_v(&f[313]), f314: Model::from_v(&f[314]), f315: Model::from_v(&f[315]), f316: Model::from_v(&f[316]), f317: Model::from_v(&f[317]), f318: Model::from_v(&f[318]), f319: Model::from_v(&f[319]), f320: Model::from_v(&f[320]), f321: Model::from_v(&f[321]), f322: Model::from_v(&f[322]), f323: Model::from_v(&f[323]), f324: Model::from_v(&f[324]), f325: Model::from_v(&f[325]), f326: Model::from_v(&f[326]), f327: Model::from_v(&f[327]), f328: Model::from_v(&f[328]), f329: Model::from_v(&f[329]), f330: Model::from_v(&f[330]), f331: Model::from_v(&f[331]), f332: Model::from_v(&f[332]), f333: Model::from_v(&f[333]), f334: Model::from_v(&f[334]), f335: Model::from_v(&f[335]), f336: Model::from_v(&f[336]), f337: Model::from_v(&f[337]), f338: Model::from_v(&f[338]), f339: Model::from_v(&f[339]), f340: Model::from_v(&f[340]), f341: Model::from_v(&f[341]), f342: Model::from_v(&f[342]), f343: Model::from_v(&f[343]), f344: Model::from_v(&f[344]), f345: Model::from_v(&f[345]), f346: Model::from_v(&f[346]), f347: Model::from_v(&f[347]), f348: Model::from_v(&f[348]), f349: Model::from_v(&f[349]), f350: Model::from_v(&f[350]), f351: Model::from_v(&f[351]), f352: Model::from_v(&f[352]), f353: Model::from_v(&f[353]), f354: Model::from_v(&f[354]), f355: Model::from_v(&f[355]), f356: Model::from_v(&f[356]), f357: Model::from_v(&f[357]), f358: Model::from_v(&f[358]), f359: Model::from_v(&f[359]), f360: Model::from_v(&f[360]), f361: Model::from_v(&f[361]), f362: Model::from_v(&f[362]), f363: Model::from_v(&f[363]), f364: Model::from_v(&f[364]), f365: Model::from_v(&f[365]), f366: Model::from_v(&f[366]), f367: Model::from_v(&f[367]), f368: Model::from_v(&f[368]), f369: Model::from_v(&f[369]), f370: Model::from_v(&f[370]), f371: Model::from_v(&f[371]), f372: Model::from_v(&f[372]), f373: Model::from_v(&f[373]), f374: Model::from_v(&f[374]), f375: Model::from_v(&f[375]), f376: Model::from_v(&f[376]), f377: Model::from_v(&f[377]), f378: Model::from_v(&f[378]), f379: Model::from_v(&f[379]), f380: Model::from_v(&f[380]), f381: Model::from_v(&f[381]), f382: Model::from_v(&f[382]), f383: Model::from_v(&f[383]), f384: Model::from_v(&f[384]), f385: Model::from_v(&f[385]), f386: Model::from_v(&f[386]), f387: Model::from_v(&f[387]), f388: Model::from_v(&f[388]), f389: Model::from_v(&f[389]), f390: Model::from_v(&f[390]), f391: Model::from_v(&f[391]), f392: Model::from_v(&f[392]), f393: Model::from_v(&f[393]), f394: Model::from_v(&f[394]), f395: Model::from_v(&f[395]), f396: Model::from_v(&f[396]), f397: Model::from_v(&f[397]), f398: Model::from_v(&f[398]), f399: Model::from_v(&f[399]), f400: Model::from_v(&f[400]), f401: Model::from_v(&f[401]), f402: Model::from_v(&f[402]), f403: Model::from_v(&f[403]), f404: Model::from_v(&f[404]), f405: Model::from_v(&f[405]), f406: Model::from_v(&f[406]), f407: Model::from_v(&f[407]), f408: Model::from_v(&f[408]), f409: Model::from_v(&f[409]), f410: Model::from_v(&f[410]), f411: Model::from_v(&f[411]), f412: Model::from_v(&f[412]), f413: Model::from_v(&f[413]), f414: Model::from_v(&f[414]), f415: Model::from_v(&f[415]), f416: Model::from_v(&f[416]), f417: Model::from_v(&f[417]), f418: Model::from_v(&f[418]), f419: Model::from_v(&f[419]), f420: Model::from_v(&f[420]), f421: Model::from_v(&f[421]), f422: Model::from_v(&f[422]), f423: Model::from_v(&f[423]), f424: Model::from_v(&f[424]), f425: Model::from_v(&f[425]), f426: Model::from_v(&f[426]), f427: Model::from_v(&f[427]), f428: Model::from_v(&f[428]), f429: Model::from_v(&f[429]), f430: Model::from_v(&f[430]), f431: Model::from_v(&f[431]), f432: Model::from_v(&f[432]), f433: Model::from_v(&f[433]), f434: Model::from_v(&f[434]), f435: Model::from_v(&f[435]), f436: Model::from_v(&f[436]), f437: Model::from_v(&f[437]), f438: Model::from_v(&f[438]), f439: Model::from_v(&f[439]), f440: Model::from_v(&f[440]), f441: Model::from_v(&f[441]), f442: Model::from_v(&f[442]), f443: Model::from_v(&f[443]), f444: Model::from_v(&f[444]), f445: Model::from_v(&f[445]), f446: Model::from_v(&f[446]), f447: Model::from_v(&f[447]), f448: Model::from_v(&f[448]), f449: Model::from_v(&f[449]), f450: Model::from_v(&f[450]), f451: Model::from_v(&f[451]), f452: Model::from_v(&f[452]), f453: Model::from_v(&f[453]), f454: Model::from_v(&f[454]), f455: Model::from_v(&f[455]), f456: Model::from_v(&f[456]), f457: Model::from_v(&f[457]), f458: Model::from_v(&f[458]), f459: Model::from_v(&f[459]), f460: Model::from_v(&f[460]), f461: Model::from_v(&f[461]), f462: Model::from_v(&f[462]), f463: Model::from_v(&f[463]), f464: Model::from_v(&f[464]), f465: Model::from_v(&f[465]), f466: Model::from_v(&f[466]), f467: Model::from_v(&f[467]), f468: Model::from_v(&f[468]), f469: Model::from_v(&f[469]), f470: Model::from_v(&f[470]), f471: Model::from_v(&f[471]), f472: Model::from_v(&f[472]), f473: Model::from_v(&f[473]), f474: Model::from_v(&f[474]), f475: Model::from_v(&f[475]), f476: Model::from_v(&f[476]), f477: Model::from_v(&f[477]), f478: Model::from_v(&f[478]), f479: Model::from_v(&f[479]), f480: Model::from_v(&f[480]), f481: Model::from_v(&f[481]), f482: Model::from_v(&f[482]), f483: Model::from_v(&f[483]), f484: Model::from_v(&f[484]), f485: Model::from_v(&f[485]), f486: Model::from_v(&f[486]), f487: Model::from_v(&f[487]), f488: Model::from_v(&f[488]), f489: Model::from_v(&f[489]), f490: Model::from_v(&f[490]), f491: Model::from_v(&f[491]), f492: Model::from_v(&f[492]), f493: Model::from_v(&f[493]), f494: Model::from_v(&f[494]), f495: Model::from_v(&f[495]), f496: Model::from_v(&f[496]), f497: Model::from_v(&f[497]), f498: Model::from_v(&f[498]), f499: Model::from_v(&f[499]), f500: Model::from_v(&f[500]), f501: Model::from_v(&f[501]), f502: Model::from_v(&f[502]), f503: Model::from_v(&f[503]), f504: Model::from_v(&f[504]), f505: Model::from_v(&f[505]), f506: Model::from_v(&f[506]), f507: Model::from_v(&f[507]), f508: Model::from_v(&f[508]), f509: Model::from_v(&f[509]), f510: Model::from_v(&f[510]), f511: Model::from_v(&f[511]), f512: Model::from_v(&f[512]), f513: Model::from_v(&f[513]), f514: Model::from_v(&f[514]), f515: Model::from_v(&f[515]), f516: Model::from_v(&f[516]), f517: Model::from_v(&f[517]), f518: Model::from_v(&f[518]), f519: Model::from_v(&f[519]), f520: Model::from_v(&f[520]), f521: Model::from_v(&f[521]), f522: Model::from_v(&f[522]), f523: Model::from_v(&f[523]), f524: Model::from_v(&f[524]), f525: Model::from_v(&f[525]), f526: Model::from_v(&f[526]), f527: Model::from_v(&f[527]), f528: Model::from_v(&f[528]), f529: Model::from_v(&f[529]), f530: Model::from_v(&f[530]), f531: Model::from_v(&f[531]), f532: Model::from_v(&f[532]), f533: Model::from_v(&f[533]), f534: Model::from_v(&f[534]), f535: Model::from_v(&f[535]), f536: Model::from_v(&f[536]), f537: Model::from_v(&f[537]), f538: Model::from_v(&f[538]), f539: Model::from_v(&f[539]), f540: Model::from_v(&f[540]), f541: Model::from_v(&f[541]), f542: Model::from_v(&f[542]), f543: Model::from_v(&f[543]), f544: Model::from_v(&f[544]), f545: Model::from_v(&f[545]), f546: Model::from_v(&f[546]), f547: Model::from_v(&f[547]), f548: Model::from_v(&f[548]), f549: Model::from_v(&f[549]), f550: Model::from_v(&f[550]), f551: Model::from_v(&f[551]), f552: Model::from_v(&f[552]), f553: Model::from_v(&f[553]), f554: Model::from_v(&f[554]), f555: Model::from_v(&f[555]), f556: Model::from_v(&f[556]), f557: Model::from_v(&f[557]), f558: Model::from_v(&f[558]), f559: Model::from_v(&f[559]) } }
}
impl Model for XEHuge {
    fn to_v(&self) -> Val {
        match self {
            XEHuge::V0 => Val::choice("V0", None),
            XEHuge::V1(x) => Val::choice("V1", Some(x.to_v())),
            XEHuge::V2 => Val::choice("V2", None),
            XEHuge::V3(x) => Val::choice("V3", Some(x.to_v())),
            XEHuge::V4 => Val::choice("V4", None),
            XEHuge::V5(x) => Val::choice("V5", Some(x.to_v())),
            XEHuge::V6 => Val::choice("V6", None),
            XEHuge::V7(x) => Val::choice("V7", Some(x.to_v())),
            XEHuge::V8 => Val::choice("V8", None),
            XEHuge::V9(x) => Val::choice("V9", Some(x.to_v())),
            XEHuge::V10 => Val::choice("V10", None),
            XEHuge::V11(x) => Val::choice("V11", Some(x.to_v())),
            XEHuge::V12 => Val::choice("V12", None),
            XEHuge::V13(x) => Val::choice("V13", Some(x.to_v())),
            XEHuge::V14 => Val::choice("V14", None),
            XEHuge::V15(x) => Val::choice("V15", Some(x.to_v())),
            XEHuge::V16 => Val::choice("V16", None),
            XEHuge::V17(x) => Val::choice("V17", Some(x.to_v())),
            XEHuge::V18 => Val::choice("V18", None),
            XEHuge::V19(x) => Val::choice("V19", Some(x.to_v())),
            XEHuge::V20 => Val::choice("V20", None),
            XEHuge::V21(x) => Val::choice("V21", Some(x.to_v())),
            XEHuge::V22 => Val::choice("V22", None),
            XEHuge::V23(x) => Val::choice("V23", Some(x.to_v())),
            XEHuge::V24 => Val::choice("V24", None),
            XEHuge::V25(x) => Val::choice("V25", Some(x.to_v())),
            XEHuge::V26 => Val::choice("V26", None),
            XEHuge::V27(x) => Val::choice("V27", Some(x.to_v())),
            XEHuge::V28 => Val::choice("V28", None),
            XEHuge::V29(x) => Val::choice("V29", Some(x.to_v())),
            XEHuge::V30 => Val::choice("V30", None),
            XEHuge::V31(x) => Val::choice("V31", Some(x.to_v())),
            XEHuge::V32 => Val::choice("V32", None),
            XEHuge::V33(x) => Val::choice("V33", Some(x.to_v())),
            XEHuge::V34 => Val::choice("V34", None),
            XEHuge::V35(x) => Val::choice("V35", Some(x.to_v())),
            XEHuge::V36 => Val::choice("V36", None),
            XEHuge::V37(x) => Val::choice("V37", Some(x.to_v())),
            XEHuge::V38 => Val::choice("V38", None),
            XEHuge::V39(x) => Val::choice("V39", Some(x.to_v())),
            XEHuge::V40 => Val::choice("V40", None),
            XEHuge::V41(x) => Val::choice("V41", Some(x.to_v())),
            XEHuge::V42 => Val::choice("V42", None),
            XEHuge::V43(x) => Val::choice("V43", Some(x.to_v())),
            XEHuge::V44 => Val::choice("V44", None),
            XEHuge::V45(x) => Val::choice("V45", Some(x.to_v())),
            XEHuge::V46 => Val::choice("V46", None),
            XEHuge::V47(x) => Val::choice("V47", Some(x.to_v())),
            XEHuge::V48 => Val::choice("V48", None),
            XEHuge::V49(x) => Val::choice("V49", Some(x.to_v())),
            XEHuge::V50 => Val::choice("V50", None),
            XEHuge::V51(x) => Val::choice("V51", Some(x.to_v())),
            XEHuge::V52 => Val::choice("V52", None),
            XEHuge::V53(x) => Val::choice("V53", Some(x.to_v())),
            XEHuge::V54 => Val::choice("V54", None),
            XEHuge::V55(x) => Val::choice("V55", Some(x.to_v())),
            XEHuge::V56 => Val::choice("V56", None),
            XEHuge::V57(x) => Val::choice("V57", Some(x.to_v())),
            XEHuge::V58 => Val::choice("V58", None),
            XEHuge::V59(x) => Val::choice("V59", Some(x.to_v())),
            XEHuge::V60 => Val::choice("V60", None),
            XEHuge::V61(x) => Val::choice("V61", Some(x.to_v())),
            XEHuge::V62 => Val::choice("V62", None),
            XEHuge::V63(x) => Val::choice("V63", Some(x.to_v())),
            XEHuge::V64 => Val::choice("V64", None),
            XEHuge::V65(x) => Val::choice("V65", Some(x.to_v())),
            XEHuge::V66 => Val::choice("V66", None),
            XEHuge::V67(x) => Val::choice("V67", Some(x.to_v())),
            XEHuge::V68 => Val::choice("V68", None),
            XEHuge::V69(x) => Val::choice("V69", Some(x.to_v())),
            XEHuge::V70 => Val::choice("V70", None),
            XEHuge::V71(x) => Val::choice("V71", Some(x.to_v())),
            XEHuge::V72 => Val::choice("V72", None),
            XEHuge::V73(x) => Val::choice("V73", Some(x.to_v())),
            XEHuge::V74 => Val::choice("V74", None),
            XEHuge::V75(x) => Val::choice("V75", Some(x.to_v())),
            XEHuge::V76 => Val::choice("V76", None),
            XEHuge::V77(x) => Val::choice("V77", Some(x.to_v())),
            XEHuge::V78 => Val::choice("V78", None),
            XEHuge::V79(x) => Val::choice("V79", Some(x.to_v())),
            XEHuge::V80 => Val::choice("V80", None),
            XEHuge::V81(x) => Val::choice("V81", Some(x.to_v())),
            XEHuge::V82 => Val::choice("V82", None),
            XEHuge::V83(x) => Val::choice("V83", Some(x.to_v())),
            XEHuge::V84 => Val::choice("V84", None),
            XEHuge::V85(x) => Val::choice("V85", Some(x.to_v())),
            XEHuge::V86 => Val::choice("V86", None),
            XEHuge::V87(x) => Val::choice("V87", Some(x.to_v())),
            XEHuge::V88 => Val::choice("V88", None),
            XEHuge::V89(x) => Val::choice("V89", Some(x.to_v())),
            XEHuge::V90 => Val::choice("V90", None),
            XEHuge::V91(x) => Val::choice("V91", Some(x.to_v())),
            XEHuge::V92 => Val::choice("V92", None),
            XEHuge::V93(x) => Val::choice("V93", Some(x.to_v())),
            XEHuge::V94 => Val::choice("V94", None),
            XEHuge::V95(x) => Val::choice("V95", Some(x.to_v())),
            XEHuge::V96 => Val::choice("V96", None),
            XEHuge::V97(x) => Val::choice("V97", Some(x.to_v())),
            XEHuge::V98 => Val::choice("V98", None),
            XEHuge::V99(x) => Val::choice("V99", Some(x.to_v())),
            XEHuge::V100 => Val::choice("V100", None),
            XEHuge::V101(x) => Val::choice("V101", Some(x.to_v())),
            XEHuge::V102 => Val::choice("V102", None),
            XEHuge::V103(x) => Val::choice("V103", Some(x.to_v())),
            XEHuge::V104 => Val::choice("V104", None),
            XEHuge::V105(x) => Val::choice("V105", Some(x.to_v())),
            XEHuge::V106 => Val::choice("V106", None),
            XEHuge::V107(x) => Val::choice("V107", Some(x.to_v())),
            XEHuge::V108 => Val::choice("V108", None),
            XEHuge::V109(x) => Val::choice("V109", Some(x.to_v())),
            XEHuge::V110 => Val::choice("V110", None),
            XEHuge::V111(x) => Val::choice("V111", Some(x.to_v())),
            XEHuge::V112 => Val::choice("V112", None),
            XEHuge::V113(x) => Val::choice("V113", Some(x.to_v())),
            XEHuge::V114 => Val::choice("V114", None),
            XEHuge::V115(x) => Val::choice("V115", Some(x.to_v())),
            XEHuge::V116 => Val::choice("V116", None),
            XEHuge::V117(x) => Val::choice("V117", Some(x.to_v())),
            XEHuge::V118 => Val::choice("V118", None),
            XEHuge::V119(x) => Val::choice("V119", Some(x.to_v())),
            XEHuge::V120 => Val::choice("V120", None),
            XEHuge::V121(x) => Val::choice("V121", Some(x.to_v())),
            XEHuge::V122 => Val::choice("V122", None),
            XEHuge::V123(x) => Val::choice("V123", Some(x.to_v())),
            XEHuge::V124 => Val::choice("V124", None),
            XEHuge::V125(x) => Val::choice("V125", Some(x.to_v())),
            XEHuge::V126 => Val::choice("V126", None),
            XEHuge::V127(x) => Val::choice("V127", Some(x.to_v())),
            XEHuge::V128 => Val::choice("V128", None),
            XEHuge::V129(x) => Val::choice("V129", Some(x.to_v())),
            XEHuge::V130 => Val::choice("V130", None),
            XEHuge::V131(x) => Val::choice("V131", Some(x.to_v())),
            XEHuge::V132 => Val::choice("V132", None),
            XEHuge::V133(x) => Val::choice("V133", Some(x.to_v())),
            XEHuge::V134 => Val::choice("V134", None),
            XEHuge::V135(x) => Val::choice("V135", Some(x.to_v())),
            XEHuge::V136 => Val::choice("V136", None),
            XEHuge::V137(x) => Val::choice("V137", Some(x.to_v())),
            XEHuge::V138 => Val::choice("V138", None),
            XEHuge::V139(x) => Val::choice("V139", Some(x.to_v())),
            XEHuge::V140 => Val::choice("V140", None),
            XEHuge::V141(x) => Val::choice("V141", Some(x.to_v())),
            XEHuge::V142 => Val::choice("V142", None),
            XEHuge::V143(x) => Val::choice("V143", Some(x.to_v())),
            XEHuge::V144 => Val::choice("V144", None),
            XEHuge::V145(x) => Val::choice("V145", Some(x.to_v())),
            XEHuge::V146 => Val::choice("V146", None),
            XEHuge::V147(x) => Val::choice("V147", Some(x.to_v())),
            XEHuge::V148 => Val::choice("V148", None),
            XEHuge::V149(x) => Val::choice("V149", Some(x.to_v())),
            XEHuge::V150 => Val::choice("V150", None),
            XEHuge::V151(x) => Val::choice("V151", Some(x.to_v())),
            XEHuge::V152 => Val::choice("V152", None),
            XEHuge::V153(x) => Val::choice("V153", Some(x.to_v())),
            XEHuge::V154 => Val::choice("V154", None),
            XEHuge::V155(x) => Val::choice("V155", Some(x.to_v())),
            XEHuge::V156 => Val::choice("V156", None),
            XEHuge::V157(x) => Val::choice("V157", Some(x.to_v())),
            XEHuge::V158 => Val::choice("V158", None),
            XEHuge::V159(x) => Val::choice("V159", Some(x.to_v())),
            XEHuge::V160 => Val::choice("V160", None),
            XEHuge::V161(x) => Val::choice("V161", Some(x.to_v())),
            XEHuge::V162 => Val::choice("V162", None),
            XEHuge::V163(x) => Val::choice("V163", Some(x.to_v())),
            XEHuge::V164 => Val::choice("V164", None),
            XEHuge::V165(x) => Val::choice("V165", Some(x.to_v())),
            XEHuge::V166 => Val::choice("V166", None),
            XEHuge::V167(x) => Val::choice("V167", Some(x.to_v())),
            XEHuge::V168 => Val::choice("V168", None),
            XEHuge::V169(x) => Val::choice("V169", Some(x.to_v())),
            XEHuge::V170 => Val::choice("V170", None),
            XEHuge::V171(x) => Val::choice("V171", Some(x.to_v())),
            XEHuge::V172 => Val::choice("V172", None),
            XEHuge::V173(x) => Val::choice("V173", Some(x.to_v())),
            XEHuge::V174 => Val::choice("V174", None),
            XEHuge::V175(x) => Val::choice("V175", Some(x.to_v())),
            XEHuge::V176 => Val::choice("V176", None),
            XEHuge::V177(x) => Val::choice("V177", Some(x.to_v())),
            XEHuge::V178 => Val::choice("V178", None),
            XEHuge::V179(x) => Val::choice("V179", Some(x.to_v())),
            XEHuge::V180 => Val::choice("V180", None),
            XEHuge::V181(x) => Val::choice("V181", Some(x.to_v())),
            XEHuge::V182 => Val::choice("V182", None),
            XEHuge::V183(x) => Val::choice("V183", Some(x.to_v())),
            XEHuge::V184 => Val::choice("V184", None),
            XEHuge::V185(x) => Val::choice("V185", Some(x.to_v())),
            XEHuge::V186 => Val::choice("V186", None),
            XEHuge::V187(x) => Val::choice("V187", Some(x.to_v())),
            XEHuge::V188 => Val::choice("V188", None),
            XEHuge::V189(x) => Val::choice("V189", Some(x.to_v())),
            XEHuge::V190 => Val::choice("V190", None),
            XEHuge::V191(x) => Val::choice("V191", Some(x.to_v())),
            XEHuge::V192 => Val::choice("V192", None),
            XEHuge::V193(x) => Val::choice("V193", Some(x.to_v())),
            XEHuge::V194 => Val::choice("V194", None),
            XEHuge::V195(x) => Val::choice("V195", Some(x.to_v())),
            XEHuge::V196 => Val::choice("V196", None),
            XEHuge::V197(x) => Val::choice("V197", Some(x.to_v())),
            XEHuge::V198 => Val::choice("V198", None),
            XEHuge::V199(x) => Val::choice("V199", Some(x.to_v())),
            XEHuge::V200 => Val::choice("V200", None),
            XEHuge::V201(x) => Val::choice("V201", Some(x.to_v())),
            XEHuge::V202 => Val::choice("V202", None),
            XEHuge::V203(x) => Val::choice("V203", Some(x.to_v())),
            XEHuge::V204 => Val::choice("V204", None),
            XEHuge::V205(x) => Val::choice("V205", Some(x.to_v())),
            XEHuge::V206 => Val::choice("V206", None),
            XEHuge::V207(x) => Val::choice("V207", Some(x.to_v())),
            XEHuge::V208 => Val::choice("V208", None),
            XEHuge::V209(x) => Val::choice("V209", Some(x.to_v())),
            XEHuge::V210 => Val::choice("V210", None),
            XEHuge::V211(x) => Val::choice("V211", Some(x.to_v())),
            XEHuge::V212 => Val::choice("V212", None),
            XEHuge::V213(x) => Val::choice("V213", Some(x.to_v())),
            XEHuge::V214 => Val::choice("V214", None),
            XEHuge::V215(x) => Val::choice("V215", Some(x.to_v())),
            XEHuge::V216 => Val::choice("V216", None),
            XEHuge::V217(x) => Val::choice("V217", Some(x.to_v())),
            XEHuge::V218 => Val::choice("V218", None),
            XEHuge::V219(x) => Val::choice("V219", Some(x.to_v())),
            XEHuge::V220 => Val::choice("V220", None),
            XEHuge::V221(x) => Val::choice("V221", Some(x.to_v())),
            XEHuge::V222 => Val::choice("V222", None),
            XEHuge::V223(x) => Val::choice("V223", Some(x.to_v())),
            XEHuge::V224 => Val::choice("V224", None),
            XEHuge::V225(x) => Val::choice("V225", Some(x.to_v())),
            XEHuge::V226 => Val::choice("V226", None),
            XEHuge::V227(x) => Val::choice("V227", Some(x.to_v())),
            XEHuge::V228 => Val::choice("V228", None),
            XEHuge::V229(x) => Val::choice("V229", Some(x.to_v())),
            XEHuge::V230 => Val::choice("V230", None),
            XEHuge::V231(x) => Val::choice("V231", Some(x.to_v())),
            XEHuge::V232 => Val::choice("V232", None),
            XEHuge::V233(x) => Val::choice("V233", Some(x.to_v())),
            XEHuge::V234 => Val::choice("V234", None),
            XEHuge::V235(x) => Val::choice("V235", Some(x.to_v())),
            XEHuge::V236 => Val::choice("V236", None),
            XEHuge::V237(x) => Val::choice("V237", Some(x.to_v())),
            XEHuge::V238 => Val::choice("V238", None),
            XEHuge::V239(x) => Val::choice("V239", Some(x.to_v())),
            XEHuge::V240 => Val::choice("V240", None),
            XEHuge::V241(x) => Val::choice("V241", Some(x.to_v())),
            XEHuge::V242 => Val::choice("V242", None),
            XEHuge::V243(x) => Val::choice("V243", Some(x.to_v())),
            XEHuge::V244 => Val::choice("V244", None),
            XEHuge::V245(x) => Val::choice("V245", Some(x.to_v())),
            XEHuge::V246 => Val::choice("V246", None),
            XEHuge::V247(x) => Val::choice("V247", Some(x.to_v())),
            XEHuge::V248 => Val::choice("V248", None),
            XEHuge::V249(x) => Val::choice("V249", Some(x.to_v())),
            XEHuge::V250 => Val::choice("V250", None),
            XEHuge::V251(x) => Val::choice("V251", Some(x.to_v())),
            XEHuge::V252 => Val::choice("V252", None),
            XEHuge::V253(x) => Val::choice("V253", Some(x.to_v())),
            XEHuge::V254 => Val::choice("V254", None),
            XEHuge::V255(x) => Val::choice("V255", Some(x.to_v())),
            XEHuge::V256 => Val::choice("V256", None),
            XEHuge::V257(x) => Val::choice("V257", Some(x.to_v())),
            XEHuge::V258 => Val::choice("V258", None),
            XEHuge::V259(x) => Val::choice("V259", Some(x.to_v())),
            XEHuge::V260 => Val::choice("V260", None),
            XEHuge::V261(x) => Val::choice("V261", Some(x.to_v())),
            XEHuge::V262 => Val::choice("V262", None),
            XEHuge::V263(x) => Val::choice("V263", Some(x.to_v())),
            XEHuge::V264 => Val::choice("V264", None),
            XEHuge::V265(x) => Val::choice("V265", Some(x.to_v())),
            XEHuge::V266 => Val::choice("V266", None),
            XEHuge::V267(x) => Val::choice("V267", Some(x.to_v())),
            XEHuge::V268 => Val::choice("V268", None),
            XEHuge::V269(x) => Val::choice("V269", Some(x.to_v())),
            XEHuge::V270 => Val::choice("V270", None),
            XEHuge::V271(x) => Val::choice("V271", Some(x.to_v())),
            XEHuge::V272 => Val::choice("V272", None),
            XEHuge::V273(x) => Val::choice("V273", Some(x.to_v())),
            XEHuge::V274 => Val::choice("V274", None),
            XEHuge::V275(x) => Val::choice("V275", Some(x.to_v())),
            XEHuge::V276 => Val::choice("V276", None),
            XEHuge::V277(x) => Val::choice("V277", Some(x.to_v())),
            XEHuge::V278 => Val::choice("V278", None),
            XEHuge::V279(x) => Val::choice("V279", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "V0" => XEHuge::V0,
            "V1" => XEHuge::V1(Model::from_v(p.unwrap())),
            "V2" => XEHuge::V2,
            "V3" => XEHuge::V3(Model::from_v(p.unwrap())),
            "V4" => XEHuge::V4,
            "V5" => XEHuge::V5(Model::from_v(p.unwrap())),
            "V6" => XEHuge::V6,
            "V7" => XEHuge::V7(Model::from_v(p.unwrap())),
            "V8" => XEHuge::V8,
            "V9" => XEHuge::V9(Model::from_v(p.unwrap())),
            "V10" => XEHuge::V10,
            "V11" => XEHuge::V11(Model::from_v(p.unwrap())),
            "V12" => XEHuge::V12,
            "V13" => XEHuge::V13(Model::from_v(p.unwrap())),
            "V14" => XEHuge::V14,
            "V15" => XEHuge::V15(Model::from_v(p.unwrap())),
            "V16" => XEHuge::V16,
            "V17" => XEHuge::V17(Model::from_v(p.unwrap())),
            "V18" => XEHuge::V18,
            "V19" => XEHuge::V19(Model::from_v(p.unwrap())),
            "V20" => XEHuge::V20,
            "V21" => XEHuge::V21(Model::from_v(p.unwrap())),
            "V22" => XEHuge::V22,
            "V23" => XEHuge::V23(Model::from_v(p.unwrap())),
            "V24" => XEHuge::V24,
            "V25" => XEHuge::V25(Model::from_v(p.unwrap())),
            "V26" => XEHuge::V26,
            "V27" => XEHuge::V27(Model::from_v(p.unwrap())),
            "V28" => XEHuge::V28,
            "V29" => XEHuge::V29(Model::from_v(p.unwrap())),
            "V30" => XEHuge::V30,
            "V31" => XEHuge::V31(Model::from_v(p.unwrap())),
            "V32" => XEHuge::V32,
            "V33" => XEHuge::V33(Model::from_v(p.unwrap())),
            "V34" => XEHuge::V34,
            "V35" => XEHuge::V35(Model::from_v(p.unwrap())),
            "V36" => XEHuge::V36,
            "V37" => XEHuge::V37(Model::from_v(p.unwrap())),
            "V38" => XEHuge::V38,
            "V39" => XEHuge::V39(Model::from_v(p.unwrap())),
            "V40" => XEHuge::V40,
            "V41" => XEHuge::V41(Model::from_v(p.unwrap())),
            "V42" => XEHuge::V42,
            "V43" => XEHuge::V43(Model::from_v(p.unwrap())),
            "V44" => XEHuge::V44,
            "V45" => XEHuge::V45(Model::from_v(p.unwrap())),
            "V46" => XEHuge::V46,
            "V47" => XEHuge::V47(Model::from_v(p.unwrap())),
            "V48" => XEHuge::V48,
            "V49" => XEHuge::V49(Model::from_v(p.unwrap())),
            "V50" => XEHuge::V50,
            "V51" => XEHuge::V51(Model::from_v(p.unwrap())),
            "V52" => XEHuge::V52,
            "V53" => XEHuge::V53(Model::from_v(p.unwrap())),
            "V54" => XEHuge::V54,
            "V55" => XEHuge::V55(Model::from_v(p.unwrap())),
            "V56" => XEHuge::V56,
            "V57" => XEHuge::V57(Model::from_v(p.unwrap())),
            "V58" => XEHuge::V58,
            "V59" => XEHuge::V59(Model::from_v(p.unwrap())),
            "V60" => XEHuge::V60,
            "V61" => XEHuge::V61(Model::from_v(p.unwrap())),
            "V62" => XEHuge::V62,
            "V63" => XEHuge::V63(Model::from_v(p.unwrap())),
            "V64" => XEHuge::V64,
            "V65" => XEHuge::V65(Model::from_v(p.unwrap())),
            "V66" => XEHuge::V66,
            "V67" => XEHuge::V67(Model::from_v(p.unwrap())),
            "V68" => XEHuge::V68,
            "V69" => XEHuge::V69(Model::from_v(p.unwrap())),
            "V70" => XEHuge::V70,
            "V71" => XEHuge::V71(Model::from_v(p.unwrap())),
            "V72" => XEHuge::V72,
            "V73" => XEHuge::V73(Model::from_v(p.unwrap())),
            "V74" => XEHuge::V74,
            "V75" => XEHuge::V75(Model::from_v(p.unwrap())),
            "V76" => XEHuge::V76,
            "V77" => XEHuge::V77(Model::from_v(p.unwrap())),
            "V78" => XEHuge::V78,
            "V79" => XEHuge::V79(Model::from_v(p.unwrap())),
            "V80" => XEHuge::V80,
            "V81" => XEHuge::V81(Model::from_v(p.unwrap())),
            "V82" => XEHuge::V82,
            "V83" => XEHuge::V83(Model::from_v(p.unwrap())),
            "V84" => XEHuge::V84,
            "V85" => XEHuge::V85(Model::from_v(p.unwrap())),
            "V86" => XEHuge::V86,
            "V87" => XEHuge::V87(Model::from_v(p.unwrap())),
            "V88" => XEHuge::V88,
            "V89" => XEHuge::V89(Model::from_v(p.unwrap())),
            "V90" => XEHuge::V90,
            "V91" => XEHuge::V91(Model::from_v(p.unwrap())),
            "V92" => XEHuge::V92,
            "V93" => XEHuge::V93(Model::from_v(p.unwrap())),
            "V94" => XEHuge::V94,
            "V95" => XEHuge::V95(Model::from_v(p.unwrap())),
            "V96" => XEHuge::V96,
            "V97" => XEHuge::V97(Model::from_v(p.unwrap())),
            "V98" => XEHuge::V98,
            "V99" => XEHuge::V99(Model::from_v(p.unwrap())),
            "V100" => XEHuge::V100,
            "V101" => XEHuge::V101(Model::from_v(p.unwrap())),
            "V102" => XEHuge::V102,
            "V103" => XEHuge::V103(Model::from_v(p.unwrap())),
            "V104" => XEHuge::V104,
            "V105" => XEHuge::V105(Model::from_v(p.unwrap())),
            "V106" => XEHuge::V106,
            "V107" => XEHuge::V107(Model::from_v(p.unwrap())),
            "V108" => XEHuge::V108,
            "V109" => XEHuge::V109(Model::from_v(p.unwrap())),
            "V110" => XEHuge::V110,
            "V111" => XEHuge::V111(Model::from_v(p.unwrap())),
            "V112" => XEHuge::V112,
            "V113" => XEHuge::V113(Model::from_v(p.unwrap())),
            "V114" => XEHuge::V114,
            "V115" => XEHuge::V115(Model::from_v(p.unwrap())),
            "V116" => XEHuge::V116,
            "V117" => XEHuge::V117(Model::from_v(p.unwrap())),
            "V118" => XEHuge::V118,
            "V119" => XEHuge::V119(Model::from_v(p.unwrap())),
            "V120" => XEHuge::V120,
            "V121" => XEHuge::V121(Model::from_v(p.unwrap())),
            "V122" => XEHuge::V122,
            "V123" => XEHuge::V123(Model::from_v(p.unwrap())),
            "V124" => XEHuge::V124,
            "V125" => XEHuge::V125(Model::from_v(p.unwrap())),
            "V126" => XEHuge::V126,
            "V127" => XEHuge::V127(Model::from_v(p.unwrap())),
            "V128" => XEHuge::V128,
            "V129" => XEHuge::V129(Model::from_v(p.unwrap())),
            "V130" => XEHuge::V130,
            "V131" => XEHuge::V131(Model::from_v(p.unwrap())),
            "V132" => XEHuge::V132,
            "V133" => XEHuge::V133(Model::from_v(p.unwrap())),
            "V134" => XEHuge::V134,
            "V135" => XEHuge::V135(Model::from_v(p.unwrap())),
            "V136" => XEHuge::V136,
            "V137" => XEHuge::V137(Model::from_v(p.unwrap())),
            "V138" => XEHuge::V138,
            "V139" => XEHuge::V139(Model::from_v(p.unwrap())),
            "V140" => XEHuge::V140,
            "V141" => XEHuge::V141(Model::from_v(p.unwrap())),
            "V142" => XEHuge::V142,
            "V143" => XEHuge::V143(Model::from_v(p.unwrap())),
            "V144" => XEHuge::V144,
            "V145" => XEHuge::V145(Model::from_v(p.unwrap())),
            "V146" => XEHuge::V146,
            "V147" => XEHuge::V147(Model::from_v(p.unwrap())),
            "V148" => XEHuge::V148,
            "V149" => XEHuge::V149(Model::from_v(p.unwrap())),
            "V150" => XEHuge::V150,
            "V151" => XEHuge::V151(Model::from_v(p.unwrap())),
            "V152" => XEHuge::V152,
            "V153" => XEHuge::V153(Model::from_v(p.unwrap())),
            "V154" => XEHuge::V154,
            "V155" => XEHuge::V155(Model::from_v(p.unwrap())),
            "V156" => XEHuge::V156,
            "V157" => XEHuge::V157(Model::from_v(p.unwrap())),
            "V158" => XEHuge::V158,
            "V159" => XEHuge::V159(Model::from_v(p.unwrap())),
            "V160" => XEHuge::V160,
            "V161" => XEHuge::V161(Model::from_v(p.unwrap())),
            "V162" => XEHuge::V162,
            "V163" => XEHuge::V163(Model::from_v(p.unwrap())),
            "V164" => XEHuge::V164,
            "V165" => XEHuge::V165(Model::from_v(p.unwrap())),
            "V166" => XEHuge::V166,
            "V167" => XEHuge::V167(Model::from_v(p.unwrap())),
            "V168" => XEHuge::V168,
            "V169" => XEHuge::V169(Model::from_v(p.unwrap())),
            "V170" => XEHuge::V170,
            "V171" => XEHuge::V171(Model::from_v(p.unwrap())),
            "V172" => XEHuge::V172,
            "V173" => XEHuge::V173(Model::from_v(p.unwrap())),
            "V174" => XEHuge::V174,
            "V175" => XEHuge::V175(Model::from_v(p.unwrap())),
            "V176" => XEHuge::V176,
            "V177" => XEHuge::V177(Model::from_v(p.unwrap())),
            "V178" => XEHuge::V178,
            "V179" => XEHuge::V179(Model::from_v(p.unwrap())),
            "V180" => XEHuge::V180,
            "V181" => XEHuge::V181(Model::from_v(p.unwrap())),
            "V182" => XEHuge::V182,
            "V183" => XEHuge::V183(Model::from_v(p.unwrap())),
            "V184" => XEHuge::V184,
            "V185" => XEHuge::V185(Model::from_v(p.unwrap())),
            "V186" => XEHuge::V186,
            "V187" => XEHuge::V187(Model::from_v(p.unwrap())),
            "V188" => XEHuge::V188,
            "V189" => XEHuge::V189(Model::from_v(p.unwrap())),
            "V190" => XEHuge::V190,
            "V191" => XEHuge::V191(Model::from_v(p.unwrap())),
            "V192" => XEHuge::V192,
            "V193" => XEHuge::V193(Model::from_v(p.unwrap())),
            "V194" => XEHuge::V194,
            "V195" => XEHuge::V195(Model::from_v(p.unwrap())),
            "V196" => XEHuge::V196,
            "V197" => XEHuge::V197(Model::from_v(p.unwrap())),
            "V198" => XEHuge::V198,
            "V199" => XEHuge::V199(Model::from_v(p.unwrap())),
            "V200" => XEHuge::V200,
            "V201" => XEHuge::V201(Model::from_v(p.unwrap())),
            "V202" => XEHuge::V202,
            "V203" => XEHuge::V203(Model::from_v(p.unwrap())),
            "V204" => XEHuge::V204,
            "V205" => XEHuge::V205(Model::from_v(p.unwrap())),
            "V206" => XEHuge::V206,
            "V207" => XEHuge::V207(Model::from_v(p.unwrap())),
            "V208" => XEHuge::V208,
            "V209" => XEHuge::V209(Model::from_v(p.unwrap())),
            "V210" => XEHuge::V210,
            "V211" => XEHuge::V211(Model::from_v(p.unwrap())),
            "V212" => XEHuge::V212,
            "V213" => XEHuge::V213(Model::from_v(p.unwrap())),
            "V214" => XEHuge::V214,
            "V215" => XEHuge::V215(Model::from_v(p.unwrap())),
            "V216" => XEHuge::V216,
            "V217" => XEHuge::V217(Model::from_v(p.unwrap())),
            "V218" => XEHuge::V218,
            "V219" => XEHuge::V219(Model::from_v(p.unwrap())),
            "V220" => XEHuge::V220,
            "V221" => XEHuge::V221(Model::from_v(p.unwrap())),
            "V222" => XEHuge::V222,
            "V223" => XEHuge::V223(Model::from_v(p.unwrap())),
            "V224" => XEHuge::V224,
            "V225" => XEHuge::V225(Model::from_v(p.unwrap())),
            "V226" => XEHuge::V226,
            "V227" => XEHuge::V227(Model::from_v(p.unwrap())),
            "V228" => XEHuge::V228,
            "V229" => XEHuge::V229(Model::from_v(p.unwrap())),
            "V230" => XEHuge::V230,
            "V231" => XEHuge::V231(Model::from_v(p.unwrap())),
            "V232" => XEHuge::V232,
            "V233" => XEHuge::V233(Model::from_v(p.unwrap())),
            "V234" => XEHuge::V234,
            "V235" => XEHuge::V235(Model::from_v(p.unwrap())),
            "V236" => XEHuge::V236,
            "V237" => XEHuge::V237(Model::from_v(p.unwrap())),
            "V238" => XEHuge::V238,
            "V239" => XEHuge::V239(Model::from_v(p.unwrap())),
            "V240" => XEHuge::V240,
            "V241" => XEHuge::V241(Model::from_v(p.unwrap())),
            "V242" => XEHuge::V242,
            "V243" => XEHuge::V243(Model::from_v(p.unwrap())),
            "V244" => XEHuge::V244,
            "V245" => XEHuge::V245(Model::from_v(p.unwrap())),
            "V246" => XEHuge::V246,
            "V247" => XEHuge::V247(Model::from_v(p.unwrap())),
            "V248" => XEHuge::V248,
            "V249" => XEHuge::V249(Model::from_v(p.unwrap())),
            "V250" => XEHuge::V250,
            "V251" => XEHuge::V251(Model::from_v(p.unwrap())),
            "V252" => XEHuge::V252,
            "V253" => XEHuge::V253(Model::from_v(p.unwrap())),
            "V254" => XEHuge::V254,
            "V255" => XEHuge::V255(Model::from_v(p.unwrap())),
            "V256" => XEHuge::V256,
            "V257" => XEHuge::V257(Model::from_v(p.unwrap())),
            "V258" => XEHuge::V258,
            "V259" => XEHuge::V259(Model::from_v(p.unwrap())),
            "V260" => XEHuge::V260,
            "V261" => XEHuge::V261(Model::from_v(p.unwrap())),
            "V262" => XEHuge::V262,
            "V263" => XEHuge::V263(Model::from_v(p.unwrap())),
            "V264" => XEHuge::V264,
            "V265" => XEHuge::V265(Model::from_v(p.unwrap())),
            "V266" => XEHuge::V266,
            "V267" => XEHuge::V267(Model::from_v(p.unwrap())),
            "V268" => XEHuge::V268,
            "V269" => XEHuge::V269(Model::from_v(p.unwrap())),
            "V270" => XEHuge::V270,
            "V271" => XEHuge::V271(Model::from_v(p.unwrap())),
            "V272" => XEHuge::V272,
            "V273" => XEHuge::V273(Model::from_v(p.unwrap())),
            "V274" => XEHuge::V274,
            "V275" => XEHuge::V275(Model::from_v(p.unwrap())),
            "V276" => XEHuge::V276,
            "V277" => XEHuge::V277(Model::from_v(p.unwrap())),
            "V278" => XEHuge::V278,
            "V279" => XEHuge::V279(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XO0_0 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO0_0 { only: Model::from_v(&f[0]) } }
}
impl Model for XO0_1 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO0_1 { only: Model::from_v(&f[0]) } }
}
impl Model for XO0_2 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO0_2 { only: Model::from_v(&f[0]) } }
}
impl Model for XO0_3 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO0_3 { only: Model::from_v(&f[0]) } }
}
impl Model for XO0_4 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO0_4 { only: Model::from_v(&f[0]) } }
}
impl Model for XO0_5 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO0_5 { only: Model::from_v(&f[0]) } }
}
impl Model for XO0_6 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO0_6 { only: Model::from_v(&f[0]) } }
}
impl Model for XO1_0 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO1_0 { only: Model::from_v(&f[0]) } }
}
impl Model for XO1_1 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO1_1 { only: Model::from_v(&f[0]) } }
}
impl Model for XO1_2 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO1_2 { only: Model::from_v(&f[0]) } }
}
impl Model for XO1_3 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO1_3 { only: Model::from_v(&f[0]) } }
}
impl Model for XO1_4 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO1_4 { only: Model::from_v(&f[0]) } }
}
impl Model for XO1_5 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO1_5 { only: Model::from_v(&f[0]) } }
}
impl Model for XO1_6 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO1_6 { only: Model::from_v(&f[0]) } }
}
impl Model for XO2_0 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO2_0 { only: Model::from_v(&f[0]) } }
}
impl Model for XO2_1 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO2_1 { only: Model::from_v(&f[0]) } }
}
impl Model for XO2_2 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO2_2 { only: Model::from_v(&f[0]) } }
}
impl Model for XO2_3 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO2_3 { only: Model::from_v(&f[0]) } }
}
impl Model for XO2_4 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO2_4 { only: Model::from_v(&f[0]) } }
}
impl Model for XO2_5 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO2_5 { only: Model::from_v(&f[0]) } }
}
impl Model for XO2_6 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO2_6 { only: Model::from_v(&f[0]) } }
}
impl Model for XO3_0 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO3_0 { only: Model::from_v(&f[0]) } }
}
impl Model for XO3_1 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO3_1 { only: Model::from_v(&f[0]) } }
}
impl Model for XO3_2 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO3_2 { only: Model::from_v(&f[0]) } }
}
impl Model for XO3_3 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO3_3 { only: Model::from_v(&f[0]) } }
}
impl Model for XO3_4 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO3_4 { only: Model::from_v(&f[0]) } }
}
impl Model for XO3_5 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO3_5 { only: Model::from_v(&f[0]) } }
}
impl Model for XO3_6 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO3_6 { only: Model::from_v(&f[0]) } }
}
impl Model for XO4_0 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO4_0 { only: Model::from_v(&f[0]) } }
}
impl Model for XO4_1 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO4_1 { only: Model::from_v(&f[0]) } }
}
impl Model for XO4_2 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO4_2 { only: Model::from_v(&f[0]) } }
}
impl Model for XO4_3 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO4_3 { only: Model::from_v(&f[0]) } }
}
impl Model for XO4_4 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO4_4 { only: Model::from_v(&f[0]) } }
}
impl Model for XO4_5 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO4_5 { only: Model::from_v(&f[0]) } }
}
impl Model for XO4_6 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO4_6 { only: Model::from_v(&f[0]) } }
}
impl Model for XO5_0 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO5_0 { only: Model::from_v(&f[0]) } }
}
impl Model for XO5_1 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO5_1 { only: Model::from_v(&f[0]) } }
}
impl Model for XO5_2 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO5_2 { only: Model::from_v(&f[0]) } }
}
impl Model for XO5_3 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO5_3 { only: Model::from_v(&f[0]) } }
}
impl Model for XO5_4 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO5_4 { only: Model::from_v(&f[0]) } }
}
impl Model for XO5_5 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO5_5 { only: Model::from_v(&f[0]) } }
}
impl Model for XO5_6 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO5_6 { only: Model::from_v(&f[0]) } }
}
impl Model for XO6_0 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO6_0 { only: Model::from_v(&f[0]) } }
}
impl Model for XO6_1 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO6_1 { only: Model::from_v(&f[0]) } }
}
impl Model for XO6_2 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO6_2 { only: Model::from_v(&f[0]) } }
}
impl Model for XO6_3 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO6_3 { only: Model::from_v(&f[0]) } }
}
impl Model for XO6_4 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO6_4 { only: Model::from_v(&f[0]) } }
}
impl Model for XO7_0 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO7_0 { only: Model::from_v(&f[0]) } }
}
impl Model for XO7_1 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO7_1 { only: Model::from_v(&f[0]) } }
}
impl Model for XO7_2 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO7_2 { only: Model::from_v(&f[0]) } }
}
impl Model for XO7_3 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO7_3 { only: Model::from_v(&f[0]) } }
}
impl Model for XO7_4 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO7_4 { only: Model::from_v(&f[0]) } }
}
impl Model for XO8_0 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO8_0 { only: Model::from_v(&f[0]) } }
}
impl Model for XO8_1 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO8_1 { only: Model::from_v(&f[0]) } }
}
impl Model for XO8_2 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO8_2 { only: Model::from_v(&f[0]) } }
}
impl Model for XO8_3 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO8_3 { only: Model::from_v(&f[0]) } }
}
impl Model for XO8_4 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO8_4 { only: Model::from_v(&f[0]) } }
}
impl Model for XO9_0 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO9_0 { only: Model::from_v(&f[0]) } }
}
impl Model for XO9_1 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO9_1 { only: Model::from_v(&f[0]) } }
}
impl Model for XO9_2 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO9_2 { only: Model::from_v(&f[0]) } }
}
impl Model for XO9_3 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO9_3 { only: Model::from_v(&f[0]) } }
}
impl Model for XO9_4 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.only.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XO9_4 { only: Model::from_v(&f[0]) } }
}
impl Model for XV0_0 {
    fn to_v(&self) -> Val {
        match self {
            XV0_0::Only(x) => Val::choice("Only", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Only" => XV0_0::Only(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XW0_0 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.it.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XW0_0 { it: Model::from_v(&f[0]) } }
}
impl Model for XV0_1 {
    fn to_v(&self) -> Val {
        match self {
            XV0_1::Only(x) => Val::choice("Only", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Only" => XV0_1::Only(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XW0_1 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.it.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XW0_1 { it: Model::from_v(&f[0]) } }
}
impl Model for XV0_2 {
    fn to_v(&self) -> Val {
        match self {
            XV0_2::Only(x) => Val::choice("Only", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Only" => XV0_2::Only(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XW0_2 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.it.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XW0_2 { it: Model::from_v(&f[0]) } }
}
impl Model for XV1_0 {
    fn to_v(&self) -> Val {
        match self {
            XV1_0::Only(x) => Val::choice("Only", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Only" => XV1_0::Only(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XW1_0 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.it.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XW1_0 { it: Model::from_v(&f[0]) } }
}
impl Model for XV1_1 {
    fn to_v(&self) -> Val {
        match self {
            XV1_1::Only(x) => Val::choice("Only", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Only" => XV1_1::Only(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XW1_1 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.it.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XW1_1 { it: Model::from_v(&f[0]) } }
}
impl Model for XV1_2 {
    fn to_v(&self) -> Val {
        match self {
            XV1_2::Only(x) => Val::choice("Only", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Only" => XV1_2::Only(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XW1_2 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.it.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XW1_2 { it: Model::from_v(&f[0]) } }
}
impl Model for XV2_0 {
    fn to_v(&self) -> Val {
        match self {
            XV2_0::Only(x) => Val::choice("Only", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Only" => XV2_0::Only(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XW2_0 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.it.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XW2_0 { it: Model::from_v(&f[0]) } }
}
impl Model for XV2_1 {
    fn to_v(&self) -> Val {
        match self {
            XV2_1::Only(x) => Val::choice("Only", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Only" => XV2_1::Only(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XW2_1 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.it.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XW2_1 { it: Model::from_v(&f[0]) } }
}
impl Model for XV2_2 {
    fn to_v(&self) -> Val {
        match self {
            XV2_2::Only(x) => Val::choice("Only", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Only" => XV2_2::Only(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XW2_2 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.it.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XW2_2 { it: Model::from_v(&f[0]) } }
}
impl Model for XV3_0 {
    fn to_v(&self) -> Val {
        match self {
            XV3_0::Only(x) => Val::choice("Only", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Only" => XV3_0::Only(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XW3_0 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.it.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XW3_0 { it: Model::from_v(&f[0]) } }
}
impl Model for XV3_1 {
    fn to_v(&self) -> Val {
        match self {
            XV3_1::Only(x) => Val::choice("Only", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Only" => XV3_1::Only(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XW3_1 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.it.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XW3_1 { it: Model::from_v(&f[0]) } }
}
impl Model for XV3_2 {
    fn to_v(&self) -> Val {
        match self {
            XV3_2::Only(x) => Val::choice("Only", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Only" => XV3_2::Only(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XW3_2 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.it.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XW3_2 { it: Model::from_v(&f[0]) } }
}
impl Model for XV4_0 {
    fn to_v(&self) -> Val {
        match self {
            XV4_0::Only(x) => Val::choice("Only", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Only" => XV4_0::Only(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XW4_0 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.it.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XW4_0 { it: Model::from_v(&f[0]) } }
}
impl Model for XV4_1 {
    fn to_v(&self) -> Val {
        match self {
            XV4_1::Only(x) => Val::choice("Only", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Only" => XV4_1::Only(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XW4_1 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.it.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XW4_1 { it: Model::from_v(&f[0]) } }
}
impl Model for XV4_2 {
    fn to_v(&self) -> Val {
        match self {
            XV4_2::Only(x) => Val::choice("Only", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Only" => XV4_2::Only(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XW4_2 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.it.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XW4_2 { it: Model::from_v(&f[0]) } }
}
impl Model for XV5_0 {
    fn to_v(&self) -> Val {
        match self {
            XV5_0::Only => Val::choice("Only", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Only" => XV5_0::Only,
            _ => unreachable!(),
        }
    }
}
impl Model for XW5_0 {
    fn to_v(&self) -> Val { Val::Fields(vec![self.it.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XW5_0 { it: Model::from_v(&f[0]) } }
}
impl Model for alpha::XT {
    fn to_v(&self) -> Val {
        match self {
            alpha::XT::X => Val::choice("X", None),
            alpha::XT::Both => Val::choice("Both", None),
            alpha::XT::Z => Val::choice("Z", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "X" => alpha::XT::X,
            "Both" => alpha::XT::Both,
            "Z" => alpha::XT::Z,
            _ => unreachable!(),
        }
    }
}
impl Model for beta::XT {
    fn to_v(&self) -> Val {
        match self {
            beta::XT::Y => Val::choice("Y", None),
            beta::XT::Both => Val::choice("Both", None),
            beta::XT::Z2 => Val::choice("Z2", None),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "Y" => beta::XT::Y,
            "Both" => beta::XT::Both,
            "Z2" => beta::XT::Z2,
            _ => unreachable!(),
        }
    }
}
impl Model for XUSame {
    fn to_v(&self) -> Val {
        match self {
            XUSame::A(x) => Val::choice("A", Some(x.to_v())),
            XUSame::B(x) => Val::choice("B", Some(x.to_v())),
            XUSame::N(x) => Val::choice("N", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "A" => XUSame::A(Model::from_v(p.unwrap())),
            "B" => XUSame::B(Model::from_v(p.unwrap())),
            "N" => XUSame::N(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XUSame2 {
    fn to_v(&self) -> Val {
        match self {
            XUSame2::B(x) => Val::choice("B", Some(x.to_v())),
            XUSame2::A(x) => Val::choice("A", Some(x.to_v())),
        }
    }
    fn from_v(v: &Val) -> Self {
        let (c, p) = v.chosen();
        match c {
            "B" => XUSame2::B(Model::from_v(p.unwrap())),
            "A" => XUSame2::A(Model::from_v(p.unwrap())),
            _ => unreachable!(),
        }
    }
}
impl Model for XSSame {
    fn to_v(&self) -> Val { Val::Fields(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v()]) }
    fn from_v(v: &Val) -> Self { let f = v.fields(); XSSame { a: Model::from_v(&f[0]), b: Model::from_v(&f[1]), c: Model::from_v(&f[2]), d: Model::from_v(&f[3]) } }
}

pub fn defs() -> Vec<(&'static str, Def)> {
    vec![
        ("Color", Def::Restriction { ws: "preserve", variants: vec![("Red", "Red"), ("Green", "green"), ("Blue", "blue ish")], unknown: None }),
        ("Size", Def::Restriction { ws: "collapse", variants: vec![("Small", "small"), ("Large", "extra large"), ("Medium", "Medium")], unknown: Some("Other") }),
        ("Code", Def::Restriction { ws: "replace", variants: vec![("Ab", "a b"), ("A", "a"), ("Empty", "")], unknown: Some("Unknown") }),
        ("Keep", Def::Restriction { ws: "preserve", variants: vec![("Pad", " pad "), ("Pad2", "pad"), ("PAD", "PAD")], unknown: Some("Rest") }),
        ("Tight", Def::Restriction { ws: "collapse", variants: vec![("One", "One"), ("Two", "two words")], unknown: None }),
        ("Vowel", Def::Restriction { ws: "replace", variants: vec![("A", "a"), ("E", "e"), ("Ea", "ea"), ("Hidden", "é\t")], unknown: None }),
        ("Pair", Def::Std { ws: "collapse" }),
        ("Word", Def::Std { ws: "preserve" }),
        ("ColorOrNum", Def::Union { ws: "preserve", variants: vec![("Col", Ty::Named("Color")), ("Num", Ty::Scalar("i32")), ("Flag", Ty::Scalar("bool"))] }),
        ("Loose", Def::Union { ws: "collapse", variants: vec![("Num", Ty::Scalar("u64")), ("Neg", Ty::Scalar("i32")), ("Sz", Ty::Named("Size"))] }),
        ("TwoTexts", Def::Union { ws: "replace", variants: vec![("T", Ty::Named("Tight")), ("V", Ty::Named("Vowel")), ("P", Ty::Named("Pair"))] }),
        ("Nested", Def::Union { ws: "preserve", variants: vec![("Inner", Ty::Named("ColorOrNum")), ("Real", Ty::Scalar("f64")), ("Any", Ty::Scalar("String"))] }),
        ("Early", Def::Union { ws: "preserve", variants: vec![("Flag", Ty::Scalar("bool")), ("Text", Ty::Scalar("String")), ("Num", Ty::Scalar("i32"))] }),
        ("Front", Def::Union { ws: "collapse", variants: vec![("Text", Ty::Scalar("String")), ("Sz", Ty::Named("Size"))] }),
        ("Alone", Def::Union { ws: "replace", variants: vec![("Only", Ty::Scalar("u64"))] }),
        ("TwoRest", Def::Union { ws: "preserve", variants: vec![("Kept", Ty::Named("Keep")), ("Rep", Ty::Named("Code")), ("Num", Ty::Scalar("f64"))] }),
        ("Ahead", Def::Restriction { ws: "collapse", variants: vec![("P", "plus"), ("M", "minus sign"), ("r#true", "true")], unknown: Some("Else") }),
        ("Foreign", Def::Restriction { ws: "collapse", variants: vec![("Kurz", "kürzer"), ("Gross", "Größe"), ("Nihon", "日本 語"), ("Kana", "かな ")], unknown: None }),
        ("Line", Def::Std { ws: "replace" }),
        ("Strings", Def::Union { ws: "collapse", variants: vec![("First", Ty::Named("Keep")), ("Second", Ty::Scalar("String"))] }),
        ("Plain", Def::Struct { root: ("", "Plain"), namespaces: vec![], fields: vec![
            Field { ident: "one", name: ("", "one"), ty: Ty::Scalar("String"), mode: 'e', default: false },
            Field { ident: "two", name: ("", "two"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "three", name: ("", "three"), ty: Ty::Many(Box::new(Ty::Scalar("String"))), mode: 'e', default: false },
            Field { ident: "attr", name: ("", "attr"), ty: Ty::Scalar("String"), mode: 'a', default: false },
            Field { ident: "attr_opt", name: ("", "attr_opt"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
        ] }),
        ("Empty", Def::Struct { root: ("", "Empty"), namespaces: vec![], fields: vec![
        ] }),
        ("Big", Def::Struct { root: ("", "Big"), namespaces: vec![], fields: vec![
            Field { ident: "a", name: ("", "a"), ty: Ty::Scalar("i32"), mode: 'e', default: false },
            Field { ident: "b", name: ("", "b"), ty: Ty::Scalar("String"), mode: 'e', default: false },
            Field { ident: "c", name: ("", "c"), ty: Ty::Many(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "d", name: ("", "d"), ty: Ty::Scalar("Tracked"), mode: 'e', default: false },
            Field { ident: "e", name: ("", "e"), ty: Ty::Opt(Box::new(Ty::Scalar("String"))), mode: 'a', default: false },
            Field { ident: "f", name: ("", "f"), ty: Ty::Opt(Box::new(Ty::Scalar("u64"))), mode: 'a', default: false },
        ] }),
        ("Defaults", Def::Struct { root: ("", "Defaults"), namespaces: vec![], fields: vec![
            Field { ident: "z", name: ("", "z"), ty: Ty::Scalar("i32"), mode: 'e', default: true },
            Field { ident: "y", name: ("", "y"), ty: Ty::Many(Box::new(Ty::Scalar("Tracked"))), mode: 'e', default: true },
            Field { ident: "x", name: ("", "x"), ty: Ty::Scalar("Tracked"), mode: 'a', default: true },
            Field { ident: "w", name: ("", "w"), ty: Ty::Scalar("Tracked"), mode: 'e', default: true },
            Field { ident: "v", name: ("", "v"), ty: Ty::Opt(Box::new(Ty::Scalar("Tracked"))), mode: 'a', default: false },
            Field { ident: "big", name: ("", "big"), ty: Ty::Named("Big"), mode: 'e', default: true },
            Field { ident: "u", name: ("", "u"), ty: Ty::Opt(Box::new(Ty::Named("Big"))), mode: 'e', default: true },
            Field { ident: "t", name: ("", "t"), ty: Ty::Scalar("bool"), mode: 'a', default: true },
        ] }),
        ("Spaced", Def::Struct { root: ("urn:a", "spaced-out"), namespaces: vec![("a", "urn:a"), ("b", "urn:b")], fields: vec![
            Field { ident: "x", name: ("urn:a", "x"), ty: Ty::Scalar("String"), mode: 'e', default: false },
            Field { ident: "x2", name: ("urn:b", "x"), ty: Ty::Scalar("String"), mode: 'e', default: false },
            Field { ident: "x3", name: ("", "x"), ty: Ty::Opt(Box::new(Ty::Scalar("String"))), mode: 'e', default: false },
            Field { ident: "p", name: ("urn:b", "p"), ty: Ty::Scalar("i32"), mode: 'a', default: false },
            Field { ident: "p2", name: ("", "p"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "q", name: ("http://www.w3.org/XML/1998/namespace", "lang"), ty: Ty::Opt(Box::new(Ty::Scalar("String"))), mode: 'a', default: false },
        ] }),
        ("Defaulted", Def::Struct { root: ("urn:d", "d"), namespaces: vec![("", "urn:d")], fields: vec![
            Field { ident: "a", name: ("urn:d", "a"), ty: Ty::Scalar("String"), mode: 'e', default: false },
            Field { ident: "ab", name: ("urn:d", "ab"), ty: Ty::Many(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "b", name: ("", "b"), ty: Ty::Named("Color"), mode: 'a', default: false },
            Field { ident: "a2", name: ("", "a"), ty: Ty::Opt(Box::new(Ty::Named("Color"))), mode: 'a', default: false },
            Field { ident: "c", name: ("urn:d", "c"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "c2", name: ("", "c"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
        ] }),
        ("Near", Def::Struct { root: ("", "Near"), namespaces: vec![], fields: vec![
            Field { ident: "ab", name: ("", "ab"), ty: Ty::Scalar("i32"), mode: 'e', default: false },
            Field { ident: "a", name: ("", "a"), ty: Ty::Scalar("i32"), mode: 'e', default: false },
            Field { ident: "abc", name: ("", "abc"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "aB", name: ("", "aB"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "b", name: ("", "b"), ty: Ty::Many(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "a_", name: ("", "a_"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
        ] }),
        ("Shape", Def::Enum { root: ("", "Shape"), namespaces: vec![], variants: vec![
            Variant { ident: "Circle", name: ("", "Circle"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "Square", name: ("", "Square"), ty: Some(Ty::Named("Plain")), skip: false },
            Variant { ident: "Dot", name: ("", "Dot"), ty: None, skip: false },
            Variant { ident: "Line", name: ("", "Line"), ty: Some(Ty::Many(Box::new(Ty::Scalar("String")))), skip: false },
        ] }),
        ("Tone", Def::Enum { root: ("", "Tone"), namespaces: vec![], variants: vec![
            Variant { ident: "Zeta", name: ("", "Zeta"), ty: Some(Ty::Named("Color")), skip: false },
            Variant { ident: "Alpha", name: ("", "Alpha"), ty: Some(Ty::Opt(Box::new(Ty::Scalar("Tracked")))), skip: false },
            Variant { ident: "Mid", name: ("", "Mid"), ty: None, skip: false },
            Variant { ident: "Other", name: ("", "beta"), ty: Some(Ty::Many(Box::new(Ty::Scalar("Tracked")))), skip: false },
        ] }),
        ("Marked", Def::Enum { root: ("urn:b", "marked"), namespaces: vec![("a", "urn:a"), ("b", "urn:b")], variants: vec![
            Variant { ident: "Yes", name: ("urn:a", "Yes"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "No", name: ("urn:b", "Yes"), ty: None, skip: false },
            Variant { ident: "Maybe", name: ("", "Maybe"), ty: Some(Ty::Named("Tight")), skip: false },
        ] }),
        ("Single", Def::Enum { root: ("", "Single"), namespaces: vec![], variants: vec![
            Variant { ident: "Only", name: ("", "Only"), ty: Some(Ty::Many(Box::new(Ty::Scalar("i32")))), skip: false },
        ] }),
        ("Blank", Def::Enum { root: ("", "blank"), namespaces: vec![], variants: vec![
            Variant { ident: "Nothing", name: ("", "Nothing"), ty: None, skip: false },
        ] }),
        ("Mixed", Def::Enum { root: ("urn:d", "Mixed"), namespaces: vec![("", "urn:d"), ("a", "urn:a"), ("b", "urn:b")], variants: vec![
            Variant { ident: "Zed", name: ("urn:a", "Zed"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "Lost", name: ("urn:b", "Zed"), ty: Some(Ty::Named("Plain")), skip: true },
            Variant { ident: "Name", name: ("urn:d", "Name"), ty: Some(Ty::Scalar("String")), skip: false },
            Variant { ident: "Zed2", name: ("urn:b", "Zed"), ty: Some(Ty::Opt(Box::new(Ty::Named("Tight")))), skip: false },
            Variant { ident: "r#type", name: ("urn:a", "type"), ty: None, skip: false },
            Variant { ident: "Bare", name: ("urn:d", "Bare"), ty: Some(Ty::Many(Box::new(Ty::Named("Color")))), skip: false },
        ] }),
        ("Guarded", Def::Enum { root: ("", "Guarded"), namespaces: vec![], variants: vec![
            Variant { ident: "Hidden", name: ("", "Hidden"), ty: Some(Ty::Scalar("String")), skip: true },
            Variant { ident: "Seen", name: ("", "Seen"), ty: Some(Ty::Scalar("String")), skip: false },
            Variant { ident: "Gone", name: ("", "Gone"), ty: None, skip: true },
            Variant { ident: "Flag", name: ("", "Flag"), ty: None, skip: false },
        ] }),
        ("One", Def::Struct { root: ("", "One"), namespaces: vec![], fields: vec![
            Field { ident: "head", name: ("", "head"), ty: Ty::Scalar("String"), mode: 'e', default: false },
            Field { ident: "shape", name: ("", "shape"), ty: Ty::Named("Shape"), mode: 'f', default: false },
        ] }),
        ("TwoFlat", Def::Struct { root: ("", "TwoFlat"), namespaces: vec![], fields: vec![
            Field { ident: "shape", name: ("", "shape"), ty: Ty::Named("Shape"), mode: 'f', default: false },
            Field { ident: "id", name: ("", "id"), ty: Ty::Scalar("Tracked"), mode: 'a', default: false },
            Field { ident: "tone", name: ("", "tone"), ty: Ty::Named("Tone"), mode: 'f', default: false },
            Field { ident: "tail", name: ("", "tail"), ty: Ty::Many(Box::new(Ty::Scalar("Tracked"))), mode: 'e', default: false },
        ] }),
        ("Overlap", Def::Struct { root: ("", "Overlap"), namespaces: vec![("n", "urn:n")], fields: vec![
            Field { ident: "Dot", name: ("", "Dot"), ty: Ty::Opt(Box::new(Ty::Named("Empty"))), mode: 'e', default: false },
            Field { ident: "first", name: ("", "first"), ty: Ty::Named("Shape"), mode: 'f', default: false },
            Field { ident: "second", name: ("", "second"), ty: Ty::Named("Shape"), mode: 'f', default: false },
            Field { ident: "mark", name: ("", "mark"), ty: Ty::Named("Marked"), mode: 'f', default: false },
            Field { ident: "note", name: ("urn:n", "note"), ty: Ty::Opt(Box::new(Ty::Scalar("String"))), mode: 'a', default: false },
        ] }),
        ("Bare", Def::Struct { root: ("", "Bare"), namespaces: vec![], fields: vec![
            Field { ident: "k", name: ("", "k"), ty: Ty::Scalar("i32"), mode: 'e', default: false },
            Field { ident: "m", name: ("", "m"), ty: Ty::Named("Marked"), mode: 'f', default: false },
        ] }),
        ("Trio", Def::Struct { root: ("", "Trio"), namespaces: vec![], fields: vec![
            Field { ident: "single", name: ("", "single"), ty: Ty::Named("Single"), mode: 'f', default: false },
            Field { ident: "Flag", name: ("", "Flag"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "g", name: ("", "g"), ty: Ty::Named("Guarded"), mode: 'f', default: false },
            Field { ident: "n", name: ("", "n"), ty: Ty::Named("Blank"), mode: 'f', default: false },
            Field { ident: "only", name: ("", "Only"), ty: Ty::Scalar("i32"), mode: 'a', default: false },
        ] }),
        ("Words", Def::Struct { root: ("", "Words"), namespaces: vec![], fields: vec![
            Field { ident: "r#type", name: ("", "type"), ty: Ty::Scalar("String"), mode: 'e', default: false },
            Field { ident: "r#match", name: ("", "match"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "kana", name: ("", "かな"), ty: Ty::Opt(Box::new(Ty::Named("Foreign"))), mode: 'e', default: false },
            Field { ident: "e", name: ("", "é"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "r#in", name: ("", "in-put"), ty: Ty::Many(Box::new(Ty::Named("Ahead"))), mode: 'e', default: false },
            Field { ident: "_under", name: ("", "_under"), ty: Ty::Opt(Box::new(Ty::Named("Early"))), mode: 'e', default: false },
            Field { ident: "Upper", name: ("", "UPPER.case"), ty: Ty::Opt(Box::new(Ty::Named("Front"))), mode: 'e', default: false },
        ] }),
        ("Wide", Def::Struct { root: ("", "Wide"), namespaces: vec![], fields: vec![
            Field { ident: "m", name: ("", "m"), ty: Ty::Scalar("i32"), mode: 'e', default: false },
            Field { ident: "zz", name: ("", "zz"), ty: Ty::Many(Box::new(Ty::Scalar("u64"))), mode: 'e', default: false },
            Field { ident: "a10", name: ("", "a10"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "b", name: ("", "b"), ty: Ty::Opt(Box::new(Ty::Named("Line"))), mode: 'e', default: false },
            Field { ident: "a2", name: ("", "a2"), ty: Ty::Opt(Box::new(Ty::Scalar("Tracked"))), mode: 'e', default: false },
            Field { ident: "n", name: ("", "n"), ty: Ty::Scalar("i32"), mode: 'a', default: false },
            Field { ident: "l", name: ("", "l"), ty: Ty::Opt(Box::new(Ty::Scalar("String"))), mode: 'a', default: false },
            Field { ident: "h", name: ("", "h"), ty: Ty::Opt(Box::new(Ty::Named("TwoRest"))), mode: 'a', default: false },
        ] }),
        ("Guard", Def::Struct { root: ("", "Guard"), namespaces: vec![], fields: vec![
            Field { ident: "before", name: ("", "before"), ty: Ty::Scalar("i32"), mode: 'e', default: false },
            Field { ident: "g", name: ("", "g"), ty: Ty::Named("Guarded"), mode: 'e', default: false },
            Field { ident: "after", name: ("", "after"), ty: Ty::Opt(Box::new(Ty::Named("Guarded"))), mode: 'e', default: false },
        ] }),
        ("GuardFlat", Def::Struct { root: ("", "GuardFlat"), namespaces: vec![], fields: vec![
            Field { ident: "before", name: ("", "before"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "g", name: ("", "g"), ty: Ty::Named("Guarded"), mode: 'f', default: false },
        ] }),
        ("Deep", Def::Struct { root: ("", "Deep"), namespaces: vec![("s", "urn:a")], fields: vec![
            Field { ident: "plain", name: ("", "plain"), ty: Ty::Named("Plain"), mode: 'e', default: false },
            Field { ident: "list", name: ("", "list"), ty: Ty::Many(Box::new(Ty::Named("One"))), mode: 'e', default: false },
            Field { ident: "choice", name: ("", "choice"), ty: Ty::Opt(Box::new(Ty::Named("Shape"))), mode: 'e', default: false },
            Field { ident: "many", name: ("", "many"), ty: Ty::Many(Box::new(Ty::Named("Tone"))), mode: 'e', default: false },
            Field { ident: "text", name: ("", "text"), ty: Ty::Named("ColorOrNum"), mode: 'e', default: false },
            Field { ident: "t2", name: ("", "t2"), ty: Ty::Opt(Box::new(Ty::Named("Loose"))), mode: 'a', default: false },
            Field { ident: "sp", name: ("urn:a", "spaced-out"), ty: Ty::Opt(Box::new(Ty::Named("Spaced"))), mode: 'e', default: false },
        ] }),
        ("Tree", Def::Enum { root: ("", "Tree"), namespaces: vec![], variants: vec![
            Variant { ident: "Leaf", name: ("", "Leaf"), ty: Some(Ty::Named("TwoFlat")), skip: false },
            Variant { ident: "Branch", name: ("", "Branch"), ty: Some(Ty::Many(Box::new(Ty::Named("Deep")))), skip: false },
            Variant { ident: "Nil", name: ("", "Nil"), ty: None, skip: false },
        ] }),
        ("XR0", Def::Restriction { ws: "preserve", variants: vec![("V0", "a\tb"), ("V1", "zz"), ("V2", "日本 語"), ("V3", "&<>\"'"), ("V4", "é")], unknown: Some("Unknown") }),
        ("XR1", Def::Restriction { ws: "collapse", variants: vec![("V0", "V0")], unknown: None }),
        ("XR2", Def::Restriction { ws: "collapse", variants: vec![("V0", "V0"), ("V1", "a  b"), ("V2", "]]>"), ("V3", ""), ("V4", "日本 語"), ("V5", "X"), ("V6", "x"), ("V7", "a\tb"), ("V8", "é")], unknown: Some("Unknown") }),
        ("XR3", Def::Restriction { ws: "replace", variants: vec![("V0", "X"), ("V1", "none"), ("V2", "true"), ("V3", "1"), ("V4", " "), ("V5", "日本 語"), ("V6", "0"), ("V7", ""), ("V8", "V8")], unknown: Some("Unknown") }),
        ("XR4", Def::Restriction { ws: "preserve", variants: vec![("V0", "minus sign"), ("V1", "X"), ("V2", "&<>\"'"), ("V3", "r#x"), ("V4", "V4")], unknown: None }),
        ("XR5", Def::Restriction { ws: "preserve", variants: vec![("V0", " "), ("V1", "none")], unknown: None }),
        ("XR6", Def::Restriction { ws: "collapse", variants: vec![("V0", "é"), ("V1", "zz"), ("V2", "日本 語"), ("V3", "V3"), ("V4", "V4"), ("V5", "minus sign"), ("V6", "V6"), ("V7", " x"), ("V8", "a\tb")], unknown: None }),
        ("XR7", Def::Restriction { ws: "preserve", variants: vec![("V0", " x"), ("V1", "x"), ("V2", "a b"), ("V3", "é"), ("V4", "zz"), ("V5", "true"), ("V6", ""), ("V7", "1"), ("V8", "0")], unknown: None }),
        ("XR8", Def::Restriction { ws: "replace", variants: vec![("V0", "V0"), ("V1", "r#x"), ("V2", "a b"), ("V3", "0"), ("V4", "V4")], unknown: Some("Unknown") }),
        ("XR9", Def::Restriction { ws: "collapse", variants: vec![("V0", "X"), ("V1", "minus sign"), ("V2", "x"), ("V3", "V3"), ("V4", "r#x"), ("V5", "x y z"), ("V6", "V6"), ("V7", "V7"), ("V8", " ")], unknown: None }),
        ("XR10", Def::Restriction { ws: "collapse", variants: vec![("V0", "]]>"), ("V1", "X"), ("V2", "true"), ("V3", "é"), ("V4", "r#x"), ("V5", ""), ("V6", "none"), ("V7", "V7"), ("V8", "V8")], unknown: None }),
        ("XR11", Def::Restriction { ws: "collapse", variants: vec![("V0", "&<>\"'"), ("V1", "a b"), ("V2", "b"), ("V3", "x"), ("V4", ""), ("V5", "V5"), ("V6", "-1"), ("V7", "0"), ("V8", "r#x")], unknown: None }),
        ("XRWide", Def::Restriction { ws: "collapse", variants: vec![("V0", "t0"), ("V1", "t856"), ("V2", "t703"), ("V3", "t550"), ("V4", "t397"), ("V5", "t244"), ("V6", "t91"), ("V7", "t947"), ("V8", "t794"), ("V9", "t641"), ("V10", "t488"), ("V11", "t335"), ("V12", "t182"), ("V13", "t29"), ("V14", "t885"), ("V15", "t732"), ("V16", "t579"), ("V17", "t426"), ("V18", "t273"), ("V19", "t120"), ("V20", "t976"), ("V21", "t823"), ("V22", "t670"), ("V23", "t517"), ("V24", "t364"), ("V25", "t211"), ("V26", "t58"), ("V27", "t914"), ("V28", "t761"), ("V29", "t608"), ("V30", "t455"), ("V31", "t302"), ("V32", "t149"), ("V33", "t1005"), ("V34", "t852"), ("V35", "t699"), ("V36", "t546"), ("V37", "t393"), ("V38", "t240"), ("V39", "t87"), ("V40", "t943"), ("V41", "t790"), ("V42", "t637"), ("V43", "t484"), ("V44", "t331"), ("V45", "t178"), ("V46", "t25"), ("V47", "t881"), ("V48", "t728"), ("V49", "t575"), ("V50", "t422"), ("V51", "t269"), ("V52", "t116"), ("V53", "t972"), ("V54", "t819"), ("V55", "t666"), ("V56", "t513"), ("V57", "t360"), ("V58", "t207"), ("V59", "t54"), ("V60", "t910"), ("V61", "t757"), ("V62", "t604"), ("V63", "t451"), ("V64", "t298"), ("V65", "t145"), ("V66", "t1001"), ("V67", "t848"), ("V68", "t695"), ("V69", "t542"), ("V70", "t389"), ("V71", "t236"), ("V72", "t83"), ("V73", "t939"), ("V74", "t786"), ("V75", "t633"), ("V76", "t480"), ("V77", "t327"), ("V78", "t174"), ("V79", "t21"), ("V80", "t877"), ("V81", "t724"), ("V82", "t571"), ("V83", "t418"), ("V84", "t265"), ("V85", "t112"), ("V86", "t968"), ("V87", "t815"), ("V88", "t662"), ("V89", "t509"), ("V90", "t356"), ("V91", "t203"), ("V92", "t50"), ("V93", "t906"), ("V94", "t753"), ("V95", "t600"), ("V96", "t447"), ("V97", "t294"), ("V98", "t141"), ("V99", "t997"), ("V100", "t844"), ("V101", "t691"), ("V102", "t538"), ("V103", "t385"), ("V104", "t232"), ("V105", "t79"), ("V106", "t935"), ("V107", "t782"), ("V108", "t629"), ("V109", "t476"), ("V110", "t323"), ("V111", "t170"), ("V112", "t17"), ("V113", "t873"), ("V114", "t720"), ("V115", "t567"), ("V116", "t414"), ("V117", "t261"), ("V118", "t108"), ("V119", "t964"), ("V120", "t811"), ("V121", "t658"), ("V122", "t505"), ("V123", "t352"), ("V124", "t199"), ("V125", "t46"), ("V126", "t902"), ("V127", "t749"), ("V128", "t596"), ("V129", "t443"), ("V130", "t290"), ("V131", "t137"), ("V132", "t993"), ("V133", "t840"), ("V134", "t687"), ("V135", "t534"), ("V136", "t381"), ("V137", "t228"), ("V138", "t75"), ("V139", "t931"), ("V140", "t778"), ("V141", "t625"), ("V142", "t472"), ("V143", "t319"), ("V144", "t166"), ("V145", "t13"), ("V146", "t869"), ("V147", "t716"), ("V148", "t563"), ("V149", "t410"), ("V150", "t257"), ("V151", "t104"), ("V152", "t960"), ("V153", "t807"), ("V154", "t654"), ("V155", "t501"), ("V156", "t348"), ("V157", "t195"), ("V158", "t42"), ("V159", "t898"), ("V160", "t745"), ("V161", "t592"), ("V162", "t439"), ("V163", "t286"), ("V164", "t133"), ("V165", "t989"), ("V166", "t836"), ("V167", "t683"), ("V168", "t530"), ("V169", "t377"), ("V170", "t224"), ("V171", "t71"), ("V172", "t927"), ("V173", "t774"), ("V174", "t621"), ("V175", "t468"), ("V176", "t315"), ("V177", "t162"), ("V178", "t9"), ("V179", "t865"), ("V180", "t712"), ("V181", "t559"), ("V182", "t406"), ("V183", "t253"), ("V184", "t100"), ("V185", "t956"), ("V186", "t803"), ("V187", "t650"), ("V188", "t497"), ("V189", "t344"), ("V190", "t191"), ("V191", "t38"), ("V192", "t894"), ("V193", "t741"), ("V194", "t588"), ("V195", "t435"), ("V196", "t282"), ("V197", "t129"), ("V198", "t985"), ("V199", "t832"), ("V200", "t679"), ("V201", "t526"), ("V202", "t373"), ("V203", "t220"), ("V204", "t67"), ("V205", "t923"), ("V206", "t770"), ("V207", "t617"), ("V208", "t464"), ("V209", "t311"), ("V210", "t158"), ("V211", "t5"), ("V212", "t861"), ("V213", "t708"), ("V214", "t555"), ("V215", "t402"), ("V216", "t249"), ("V217", "t96"), ("V218", "t952"), ("V219", "t799"), ("V220", "t646"), ("V221", "t493"), ("V222", "t340"), ("V223", "t187"), ("V224", "t34"), ("V225", "t890"), ("V226", "t737"), ("V227", "t584"), ("V228", "t431"), ("V229", "t278"), ("V230", "t125"), ("V231", "t981"), ("V232", "t828"), ("V233", "t675"), ("V234", "t522"), ("V235", "t369"), ("V236", "t216"), ("V237", "t63"), ("V238", "t919"), ("V239", "t766"), ("V240", "t613"), ("V241", "t460"), ("V242", "t307"), ("V243", "t154"), ("V244", "t1"), ("V245", "t857"), ("V246", "t704"), ("V247", "t551"), ("V248", "t398"), ("V249", "t245"), ("V250", "t92"), ("V251", "t948"), ("V252", "t795"), ("V253", "t642"), ("V254", "t489"), ("V255", "t336"), ("V256", "t183"), ("V257", "t30"), ("V258", "t886"), ("V259", "t733"), ("V260", "t580"), ("V261", "t427"), ("V262", "t274"), ("V263", "t121"), ("V264", "t977"), ("V265", "t824"), ("V266", "t671"), ("V267", "t518"), ("V268", "t365"), ("V269", "t212")], unknown: Some("Rest") }),
        ("XU0", Def::Union { ws: "preserve", variants: vec![("V0", Ty::Named("XR8")), ("V1", Ty::Named("XR9"))] }),
        ("XU1", Def::Union { ws: "collapse", variants: vec![("V0", Ty::Named("XR0")), ("V1", Ty::Named("XR11")), ("V2", Ty::Named("Color")), ("V3", Ty::Named("XU0"))] }),
        ("XU2", Def::Union { ws: "collapse", variants: vec![("V0", Ty::Scalar("i32"))] }),
        ("XU3", Def::Union { ws: "preserve", variants: vec![("V0", Ty::Named("XR10")), ("V1", Ty::Scalar("String")), ("V2", Ty::Named("Color")), ("V3", Ty::Scalar("bool"))] }),
        ("XU4", Def::Union { ws: "collapse", variants: vec![("V0", Ty::Named("XR0"))] }),
        ("XU5", Def::Union { ws: "replace", variants: vec![("V0", Ty::Named("XR6"))] }),
        ("XU6", Def::Union { ws: "collapse", variants: vec![("V0", Ty::Named("XR10")), ("V1", Ty::Scalar("i32")), ("V2", Ty::Scalar("bool"))] }),
        ("XU7", Def::Union { ws: "preserve", variants: vec![("V0", Ty::Named("XRWide")), ("V1", Ty::Named("XRWide")), ("V2", Ty::Scalar("f64")), ("V3", Ty::Named("XU2"))] }),
        ("XRU0", Def::Restriction { ws: "preserve", variants: vec![("A", "u0"), ("B", "u1"), ("C", "u 0")], unknown: None }),
        ("XRU1", Def::Restriction { ws: "collapse", variants: vec![("A", "u1"), ("B", "u2"), ("C", "u 1")], unknown: None }),
        ("XRU2", Def::Restriction { ws: "preserve", variants: vec![("A", "u2"), ("B", "u3"), ("C", "u 2")], unknown: None }),
        ("XRU3", Def::Restriction { ws: "collapse", variants: vec![("A", "u3"), ("B", "u4"), ("C", "u 3")], unknown: None }),
        ("XRU4", Def::Restriction { ws: "preserve", variants: vec![("A", "u4"), ("B", "u5"), ("C", "u 4")], unknown: None }),
        ("XRU5", Def::Restriction { ws: "collapse", variants: vec![("A", "u5"), ("B", "u6"), ("C", "u 5")], unknown: None }),
        ("XRU6", Def::Restriction { ws: "preserve", variants: vec![("A", "u6"), ("B", "u7"), ("C", "u 6")], unknown: None }),
        ("XRU7", Def::Restriction { ws: "collapse", variants: vec![("A", "u7"), ("B", "u8"), ("C", "u 7")], unknown: None }),
        ("XRU8", Def::Restriction { ws: "preserve", variants: vec![("A", "u8"), ("B", "u9"), ("C", "u 8")], unknown: None }),
        ("XRU9", Def::Restriction { ws: "collapse", variants: vec![("A", "u9"), ("B", "u10"), ("C", "u 9")], unknown: None }),
        ("XRU10", Def::Restriction { ws: "preserve", variants: vec![("A", "u10"), ("B", "u11"), ("C", "u 10")], unknown: None }),
        ("XRU11", Def::Restriction { ws: "collapse", variants: vec![("A", "u11"), ("B", "u12"), ("C", "u 11")], unknown: None }),
        ("XRU12", Def::Restriction { ws: "preserve", variants: vec![("A", "u12"), ("B", "u13"), ("C", "u 12")], unknown: None }),
        ("XRU13", Def::Restriction { ws: "collapse", variants: vec![("A", "u13"), ("B", "u14"), ("C", "u 13")], unknown: None }),
        ("XRU14", Def::Restriction { ws: "preserve", variants: vec![("A", "u14"), ("B", "u15"), ("C", "u 14")], unknown: None }),
        ("XRU15", Def::Restriction { ws: "collapse", variants: vec![("A", "u15"), ("B", "u16"), ("C", "u 15")], unknown: None }),
        ("XRU16", Def::Restriction { ws: "preserve", variants: vec![("A", "u16"), ("B", "u17"), ("C", "u 16")], unknown: None }),
        ("XRU17", Def::Restriction { ws: "collapse", variants: vec![("A", "u17"), ("B", "u18"), ("C", "u 17")], unknown: None }),
        ("XRU18", Def::Restriction { ws: "preserve", variants: vec![("A", "u18"), ("B", "u19"), ("C", "u 18")], unknown: None }),
        ("XRU19", Def::Restriction { ws: "collapse", variants: vec![("A", "u19"), ("B", "u20"), ("C", "u 19")], unknown: None }),
        ("XRU20", Def::Restriction { ws: "preserve", variants: vec![("A", "u20"), ("B", "u21"), ("C", "u 20")], unknown: None }),
        ("XRU21", Def::Restriction { ws: "collapse", variants: vec![("A", "u21"), ("B", "u22"), ("C", "u 21")], unknown: None }),
        ("XRU22", Def::Restriction { ws: "preserve", variants: vec![("A", "u22"), ("B", "u23"), ("C", "u 22")], unknown: None }),
        ("XRU23", Def::Restriction { ws: "collapse", variants: vec![("A", "u23"), ("B", "u24"), ("C", "u 23")], unknown: None }),
        ("XUWide", Def::Union { ws: "collapse", variants: vec![("V0", Ty::Named("XRU0")), ("V1", Ty::Named("XRU1")), ("V2", Ty::Named("XRU2")), ("V3", Ty::Named("XRU3")), ("V4", Ty::Named("XRU4")), ("V5", Ty::Named("XRU5")), ("V6", Ty::Named("XRU6")), ("V7", Ty::Named("XRU7")), ("V8", Ty::Named("XRU8")), ("V9", Ty::Named("XRU9")), ("V10", Ty::Named("XRU10")), ("V11", Ty::Named("XRU11")), ("V12", Ty::Named("XRU12")), ("V13", Ty::Named("XRU13")), ("V14", Ty::Named("XRU14")), ("V15", Ty::Named("XRU15")), ("V16", Ty::Named("XRU16")), ("V17", Ty::Named("XRU17")), ("V18", Ty::Named("XRU18")), ("V19", Ty::Named("XRU19")), ("V20", Ty::Named("XRU20")), ("V21", Ty::Named("XRU21")), ("V22", Ty::Named("XRU22")), ("V23", Ty::Named("XRU23")), ("Num", Ty::Scalar("i32")), ("Last", Ty::Named("Word"))] }),
        ("XS0", Def::Struct { root: ("urn:p/", "a"), namespaces: vec![("s", "urn:p/")], fields: vec![
        ] }),
        ("XS1", Def::Struct { root: ("", "b"), namespaces: vec![("pp", "urn:p"), ("r", "urn:r:"), ("t", "URN:p")], fields: vec![
            Field { ident: "lang", name: ("", "name"), ty: Ty::Opt(Box::new(Ty::Named("XR2"))), mode: 'a', default: false },
            Field { ident: "x2", name: ("urn:p", "name"), ty: Ty::Named("XU6"), mode: 'e', default: false },
            Field { ident: "z", name: ("URN:p", "B"), ty: Ty::Opt(Box::new(Ty::Scalar("f64"))), mode: 'e', default: true },
            Field { ident: "value", name: ("", "value"), ty: Ty::Many(Box::new(Ty::Named("XS0"))), mode: 'e', default: false },
            Field { ident: "a", name: ("", "a"), ty: Ty::Named("Shape"), mode: 'f', default: false },
            Field { ident: "ab", name: ("urn:p", "ab"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "b", name: ("", "b"), ty: Ty::Named("Shape"), mode: 'f', default: false },
            Field { ident: "id", name: ("urn:r:", "id"), ty: Ty::Named("XR7"), mode: 'e', default: false },
        ] }),
        ("XE2", Def::Enum { root: ("urn:p", "XE2"), namespaces: vec![("p", "urn:p")], variants: vec![
            Variant { ident: "V0", name: ("urn:p", "V0"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V1", name: ("", "x"), ty: Some(Ty::Many(Box::new(Ty::Named("XR2")))), skip: false },
        ] }),
        ("XS3", Def::Struct { root: ("", "XS3"), namespaces: vec![], fields: vec![
            Field { ident: "_v", name: ("", "a"), ty: Ty::Many(Box::new(Ty::Named("XS1"))), mode: 'e', default: false },
            Field { ident: "ab", name: ("", "ab"), ty: Ty::Named("XU1"), mode: 'a', default: false },
            Field { ident: "c", name: ("", "c"), ty: Ty::Opt(Box::new(Ty::Named("XRWide"))), mode: 'e', default: false },
            Field { ident: "r#type", name: ("", "x2"), ty: Ty::Opt(Box::new(Ty::Named("XU5"))), mode: 'e', default: true },
            Field { ident: "a", name: ("", "a"), ty: Ty::Named("Shape"), mode: 'f', default: false },
            Field { ident: "x", name: ("", "UPPER.case"), ty: Ty::Many(Box::new(Ty::Named("XR0"))), mode: 'e', default: false },
        ] }),
        ("XS4", Def::Struct { root: ("urn:p", "n"), namespaces: vec![("p", "urn:p"), ("s", "urn:p/")], fields: vec![
            Field { ident: "a", name: ("", "a"), ty: Ty::Named("Shape"), mode: 'f', default: false },
            Field { ident: "present", name: ("", "present"), ty: Ty::Opt(Box::new(Ty::Named("XR2"))), mode: 'e', default: false },
            Field { ident: "b", name: ("", "b"), ty: Ty::Named("Shape"), mode: 'f', default: false },
            Field { ident: "x10", name: ("", "x10"), ty: Ty::Many(Box::new(Ty::Named("XR4"))), mode: 'e', default: false },
            Field { ident: "zz_top", name: ("", "ab"), ty: Ty::Named("XS0"), mode: 'e', default: false },
            Field { ident: "r#in", name: ("", "in"), ty: Ty::Opt(Box::new(Ty::Named("Pair"))), mode: 'a', default: false },
            Field { ident: "out", name: ("", "out"), ty: Ty::Opt(Box::new(Ty::Named("XE2"))), mode: 'e', default: false },
            Field { ident: "lang", name: ("http://www.w3.org/XML/1998/namespace", "o"), ty: Ty::Scalar("f64"), mode: 'a', default: true },
        ] }),
        ("XE5", Def::Enum { root: ("", "XE5"), namespaces: vec![], variants: vec![
            Variant { ident: "V3", name: ("", "V3"), ty: Some(Ty::Named("XR4")), skip: false },
            Variant { ident: "V2", name: ("", "V2"), ty: Some(Ty::Named("XR0")), skip: false },
            Variant { ident: "V0", name: ("", "V0"), ty: Some(Ty::Many(Box::new(Ty::Named("XE2")))), skip: false },
            Variant { ident: "V1", name: ("", "x10"), ty: Some(Ty::Named("XS3")), skip: false },
        ] }),
        ("XS6", Def::Struct { root: ("", "Z"), namespaces: vec![], fields: vec![
            Field { ident: "z", name: ("", "x10"), ty: Ty::Named("XS0"), mode: 'e', default: false },
            Field { ident: "a", name: ("", "a"), ty: Ty::Named("Shape"), mode: 'f', default: false },
        ] }),
        ("XS7", Def::Struct { root: ("", "XS7"), namespaces: vec![("p", "urn:p")], fields: vec![
            Field { ident: "visitor", name: ("urn:p", "visitor"), ty: Ty::Opt(Box::new(Ty::Named("XS4"))), mode: 'e', default: true },
            Field { ident: "a", name: ("", "a"), ty: Ty::Named("XE5"), mode: 'f', default: false },
            Field { ident: "out", name: ("urn:p", "out"), ty: Ty::Named("XR3"), mode: 'e', default: false },
            Field { ident: "x", name: ("urn:p", "x"), ty: Ty::Scalar("f64"), mode: 'e', default: false },
            Field { ident: "Upper", name: ("", "Upper"), ty: Ty::Named("XE5"), mode: 'e', default: false },
        ] }),
        ("XE8", Def::Enum { root: ("", "z"), namespaces: vec![("q", "urn:q"), ("s", "urn:p/")], variants: vec![
            Variant { ident: "V0", name: ("urn:q", "V0"), ty: Some(Ty::Named("XU4")), skip: false },
            Variant { ident: "V1", name: ("urn:q", "V1"), ty: Some(Ty::Many(Box::new(Ty::Named("XR2")))), skip: true },
        ] }),
        ("XS9", Def::Struct { root: ("", "XS9"), namespaces: vec![], fields: vec![
            Field { ident: "x10", name: ("", "x10"), ty: Ty::Opt(Box::new(Ty::Named("XU0"))), mode: 'e', default: true },
            Field { ident: "r#fn", name: ("", "fn"), ty: Ty::Opt(Box::new(Ty::Named("XR9"))), mode: 'e', default: false },
            Field { ident: "x1", name: ("", "x1"), ty: Ty::Named("XE2"), mode: 'e', default: false },
            Field { ident: "a", name: ("", "b"), ty: Ty::Many(Box::new(Ty::Named("XR8"))), mode: 'e', default: true },
            Field { ident: "zz_top", name: ("", "かな"), ty: Ty::Opt(Box::new(Ty::Named("XR9"))), mode: 'a', default: false },
            Field { ident: "r#use", name: ("", "use"), ty: Ty::Named("XU7"), mode: 'e', default: false },
        ] }),
        ("XS10", Def::Struct { root: ("", "ab"), namespaces: vec![], fields: vec![
            Field { ident: "zz_top", name: ("", "zz_top"), ty: Ty::Named("XS6"), mode: 'e', default: false },
            Field { ident: "present", name: ("", "_u"), ty: Ty::Many(Box::new(Ty::Named("XR10"))), mode: 'e', default: false },
            Field { ident: "r#use", name: ("", "use"), ty: Ty::Scalar("String"), mode: 'e', default: false },
            Field { ident: "z", name: ("", "UPPER.case"), ty: Ty::Opt(Box::new(Ty::Scalar("u64"))), mode: 'e', default: false },
            Field { ident: "out", name: ("", "o"), ty: Ty::Named("XE5"), mode: 'e', default: false },
            Field { ident: "x", name: ("", "x"), ty: Ty::Named("XE2"), mode: 'e', default: false },
        ] }),
        ("XE11", Def::Enum { root: ("urn:p/", "XE11"), namespaces: vec![("s", "urn:p/")], variants: vec![
            Variant { ident: "V0", name: ("", "B"), ty: Some(Ty::Many(Box::new(Ty::Named("XS10")))), skip: false },
            Variant { ident: "V1", name: ("", "V1"), ty: Some(Ty::Named("XR0")), skip: false },
        ] }),
        ("XS12", Def::Struct { root: ("", "XS12"), namespaces: vec![("s", "urn:p/")], fields: vec![
            Field { ident: "r#use", name: ("", "use"), ty: Ty::Named("XS6"), mode: 'e', default: false },
            Field { ident: "x10", name: ("urn:p/", "x10"), ty: Ty::Opt(Box::new(Ty::Scalar("String"))), mode: 'e', default: true },
            Field { ident: "ab", name: ("urn:p/", "かな"), ty: Ty::Opt(Box::new(Ty::Named("XUWide"))), mode: 'a', default: true },
            Field { ident: "r#in", name: ("urn:p/", "in"), ty: Ty::Opt(Box::new(Ty::Named("Color"))), mode: 'a', default: false },
        ] }),
        ("XS13", Def::Struct { root: ("", "B"), namespaces: vec![], fields: vec![
            Field { ident: "r#type", name: ("", "type"), ty: Ty::Many(Box::new(Ty::Named("XU7"))), mode: 'e', default: false },
        ] }),
        ("XE14", Def::Enum { root: ("", "n"), namespaces: vec![("pp", "urn:p"), ("q", "urn:q"), ("t", "URN:p")], variants: vec![
            Variant { ident: "V0", name: ("URN:p", "V0"), ty: None, skip: false },
            Variant { ident: "V3", name: ("URN:p", "b"), ty: Some(Ty::Many(Box::new(Ty::Named("XR9")))), skip: false },
            Variant { ident: "V1", name: ("", "V1"), ty: Some(Ty::Scalar("String")), skip: false },
            Variant { ident: "V2", name: ("urn:q", "V2"), ty: Some(Ty::Named("XR1")), skip: false },
        ] }),
        ("XS15", Def::Struct { root: ("", "XS15"), namespaces: vec![], fields: vec![
            Field { ident: "lang", name: ("", "name"), ty: Ty::Named("XU3"), mode: 'e', default: false },
            Field { ident: "out", name: ("", "Z"), ty: Ty::Named("XR3"), mode: 'e', default: false },
            Field { ident: "a", name: ("", "ab"), ty: Ty::Opt(Box::new(Ty::Named("XS13"))), mode: 'e', default: false },
        ] }),
        ("XS16", Def::Struct { root: ("", "XS16"), namespaces: vec![("p", "urn:p"), ("pp", "urn:p"), ("s", "urn:p/")], fields: vec![
            Field { ident: "c", name: ("", "b"), ty: Ty::Opt(Box::new(Ty::Named("XS10"))), mode: 'e', default: false },
        ] }),
        ("XE17", Def::Enum { root: ("urn:p/", "b"), namespaces: vec![("pp", "urn:p"), ("s", "urn:p/")], variants: vec![
            Variant { ident: "V3", name: ("urn:p/", "V3"), ty: Some(Ty::Many(Box::new(Ty::Named("XU3")))), skip: false },
            Variant { ident: "V1", name: ("", "V1"), ty: Some(Ty::Named("XU3")), skip: false },
            Variant { ident: "V0", name: ("", "p"), ty: Some(Ty::Named("XS13")), skip: false },
            Variant { ident: "V2", name: ("", "V2"), ty: Some(Ty::Named("XU5")), skip: false },
        ] }),
        ("XS18", Def::Struct { root: ("", "XS18"), namespaces: vec![], fields: vec![
            Field { ident: "a", name: ("", "a"), ty: Ty::Named("XE8"), mode: 'f', default: false },
            Field { ident: "r#type", name: ("", "type"), ty: Ty::Named("Color"), mode: 'a', default: false },
        ] }),
        ("XS19", Def::Struct { root: ("urn:r:", "XS19"), namespaces: vec![("q", "urn:q"), ("r", "urn:r:"), ("s", "urn:p/")], fields: vec![
            Field { ident: "id", name: ("", "id"), ty: Ty::Opt(Box::new(Ty::Named("XU5"))), mode: 'a', default: false },
            Field { ident: "visitor", name: ("", "visitor"), ty: Ty::Named("XS16"), mode: 'e', default: false },
            Field { ident: "x10", name: ("", "x10"), ty: Ty::Opt(Box::new(Ty::Named("XR8"))), mode: 'a', default: false },
            Field { ident: "value", name: ("", "value"), ty: Ty::Opt(Box::new(Ty::Named("Pair"))), mode: 'a', default: false },
            Field { ident: "a", name: ("", "a"), ty: Ty::Named("XE2"), mode: 'f', default: false },
            Field { ident: "x2", name: ("urn:r:", "x2"), ty: Ty::Opt(Box::new(Ty::Named("XR0"))), mode: 'e', default: true },
            Field { ident: "name", name: ("", "B"), ty: Ty::Named("XR9"), mode: 'e', default: false },
            Field { ident: "r#use", name: ("urn:p/", "p"), ty: Ty::Opt(Box::new(Ty::Named("XUWide"))), mode: 'a', default: true },
        ] }),
        ("XE20", Def::Enum { root: ("urn:r:", "m"), namespaces: vec![("r", "urn:r:"), ("s", "urn:p/")], variants: vec![
            Variant { ident: "V0", name: ("urn:r:", "x1"), ty: Some(Ty::Opt(Box::new(Ty::Scalar("f64")))), skip: false },
            Variant { ident: "V1", name: ("urn:r:", "V1"), ty: Some(Ty::Many(Box::new(Ty::Named("Pair")))), skip: true },
        ] }),
        ("XS21", Def::Struct { root: ("", "x1"), namespaces: vec![("p", "urn:p"), ("q", "urn:q")], fields: vec![
            Field { ident: "x", name: ("", "x1"), ty: Ty::Many(Box::new(Ty::Named("XU0"))), mode: 'e', default: true },
        ] }),
        ("XS22", Def::Struct { root: ("urn:p", "x2"), namespaces: vec![("pp", "urn:p")], fields: vec![
            Field { ident: "zz_top", name: ("urn:p", "zz_top"), ty: Ty::Scalar("Tracked"), mode: 'e', default: true },
            Field { ident: "r#fn", name: ("urn:p", "fn"), ty: Ty::Many(Box::new(Ty::Scalar("i32"))), mode: 'e', default: true },
            Field { ident: "b", name: ("urn:p", "b"), ty: Ty::Opt(Box::new(Ty::Named("XR2"))), mode: 'a', default: false },
            Field { ident: "r#use", name: ("", "B"), ty: Ty::Opt(Box::new(Ty::Named("XR5"))), mode: 'a', default: true },
            Field { ident: "r#in", name: ("", "in"), ty: Ty::Named("XS18"), mode: 'e', default: false },
        ] }),
        ("XE23", Def::Enum { root: ("", "XE23"), namespaces: vec![], variants: vec![
            Variant { ident: "V2", name: ("", "V2"), ty: Some(Ty::Scalar("Tracked")), skip: false },
            Variant { ident: "V4", name: ("", "V4"), ty: None, skip: false },
            Variant { ident: "V1", name: ("", "V1"), ty: Some(Ty::Named("XR1")), skip: false },
            Variant { ident: "V5", name: ("", "V5"), ty: Some(Ty::Named("XU0")), skip: true },
            Variant { ident: "V3", name: ("", "V3"), ty: Some(Ty::Opt(Box::new(Ty::Named("XU2")))), skip: false },
            Variant { ident: "V0", name: ("", "V0"), ty: Some(Ty::Opt(Box::new(Ty::Named("XR2")))), skip: false },
            Variant { ident: "V6", name: ("", "x"), ty: Some(Ty::Named("XR2")), skip: false },
        ] }),
        ("XS24", Def::Struct { root: ("URN:p", "x1"), namespaces: vec![("t", "URN:p")], fields: vec![
            Field { ident: "a", name: ("", "a"), ty: Ty::Named("XE17"), mode: 'f', default: false },
            Field { ident: "r#type", name: ("", "type"), ty: Ty::Many(Box::new(Ty::Named("XS24"))), mode: 'e', default: false },
        ] }),
        ("XS25", Def::Struct { root: ("", "p"), namespaces: vec![], fields: vec![
            Field { ident: "name", name: ("", "p"), ty: Ty::Named("XS21"), mode: 'e', default: false },
            Field { ident: "visitor", name: ("", "value"), ty: Ty::Opt(Box::new(Ty::Named("XR5"))), mode: 'a', default: false },
            Field { ident: "_v", name: ("", "_v"), ty: Ty::Opt(Box::new(Ty::Named("Pair"))), mode: 'e', default: false },
            Field { ident: "lang", name: ("", "lang"), ty: Ty::Opt(Box::new(Ty::Named("XR5"))), mode: 'a', default: false },
        ] }),
        ("XE26", Def::Enum { root: ("urn:p/", "XE26"), namespaces: vec![("s", "urn:p/")], variants: vec![
            Variant { ident: "V0", name: ("urn:p/", "x2"), ty: Some(Ty::Named("XS18")), skip: false },
        ] }),
        ("XS27", Def::Struct { root: ("", "XS27"), namespaces: vec![], fields: vec![
            Field { ident: "r#use", name: ("", "use"), ty: Ty::Opt(Box::new(Ty::Named("XR5"))), mode: 'a', default: false },
            Field { ident: "r#match", name: ("", "match"), ty: Ty::Opt(Box::new(Ty::Scalar("u64"))), mode: 'a', default: false },
            Field { ident: "present", name: ("", "present"), ty: Ty::Opt(Box::new(Ty::Named("XU2"))), mode: 'a', default: true },
            Field { ident: "c", name: ("", "c"), ty: Ty::Opt(Box::new(Ty::Scalar("f64"))), mode: 'a', default: false },
            Field { ident: "b", name: ("", "x2"), ty: Ty::Named("XR7"), mode: 'a', default: false },
            Field { ident: "a", name: ("", "a"), ty: Ty::Named("XE20"), mode: 'f', default: false },
        ] }),
        ("XS28", Def::Struct { root: ("URN:p", "XS28"), namespaces: vec![("t", "URN:p")], fields: vec![
            Field { ident: "x10", name: ("http://www.w3.org/XML/1998/namespace", "x"), ty: Ty::Opt(Box::new(Ty::Named("XRWide"))), mode: 'a', default: false },
            Field { ident: "out", name: ("URN:p", "out"), ty: Ty::Named("XRWide"), mode: 'a', default: false },
            Field { ident: "a", name: ("", "a"), ty: Ty::Named("XE14"), mode: 'f', default: false },
        ] }),
        ("XE29", Def::Enum { root: ("", "XE29"), namespaces: vec![], variants: vec![
            Variant { ident: "V1", name: ("", "é"), ty: Some(Ty::Opt(Box::new(Ty::Named("XR9")))), skip: false },
            Variant { ident: "V0", name: ("", "V0"), ty: Some(Ty::Named("Pair")), skip: false },
            Variant { ident: "V2", name: ("", "V2"), ty: Some(Ty::Named("XR3")), skip: false },
        ] }),
        ("XS30", Def::Struct { root: ("urn:p/", "a_b"), namespaces: vec![("p", "urn:p"), ("s", "urn:p/")], fields: vec![
            Field { ident: "b", name: ("urn:p", "Z"), ty: Ty::Named("XU6"), mode: 'e', default: false },
        ] }),
        ("XS31", Def::Struct { root: ("", "XS31"), namespaces: vec![], fields: vec![
            Field { ident: "r#type", name: ("", "type"), ty: Ty::Opt(Box::new(Ty::Named("XUWide"))), mode: 'a', default: true },
            Field { ident: "present", name: ("", "present"), ty: Ty::Named("XR7"), mode: 'a', default: false },
        ] }),
        ("XE32", Def::Enum { root: ("", "XE32"), namespaces: vec![("q", "urn:q"), ("s", "urn:p/"), ("t", "URN:p")], variants: vec![
            Variant { ident: "V5", name: ("", "V5"), ty: Some(Ty::Many(Box::new(Ty::Named("XR8")))), skip: true },
            Variant { ident: "V4", name: ("", "V4"), ty: None, skip: true },
            Variant { ident: "V6", name: ("urn:q", "é"), ty: Some(Ty::Named("XUWide")), skip: false },
            Variant { ident: "V0", name: ("urn:p/", "x10"), ty: Some(Ty::Named("XR8")), skip: false },
            Variant { ident: "V1", name: ("urn:q", "V1"), ty: Some(Ty::Named("XR8")), skip: false },
            Variant { ident: "V2", name: ("", "V2"), ty: None, skip: true },
            Variant { ident: "V3", name: ("", "V3"), ty: Some(Ty::Scalar("bool")), skip: true },
        ] }),
        ("XS33", Def::Struct { root: ("", "XS33"), namespaces: vec![], fields: vec![
            Field { ident: "_v", name: ("", "_v"), ty: Ty::Scalar("String"), mode: 'e', default: false },
            Field { ident: "z", name: ("", "z"), ty: Ty::Opt(Box::new(Ty::Scalar("bool"))), mode: 'a', default: false },
        ] }),
        ("XSWide", Def::Struct { root: ("", "XSWide"), namespaces: vec![("pp", "urn:p"), ("q", "urn:q"), ("s", "urn:p/")], fields: vec![
            Field { ident: "f0", name: ("urn:q", "f0"), ty: Ty::Opt(Box::new(Ty::Named("XR3"))), mode: 'a', default: false },
            Field { ident: "f1", name: ("", "Z"), ty: Ty::Opt(Box::new(Ty::Named("XU1"))), mode: 'a', default: false },
            Field { ident: "f2", name: ("", "f2"), ty: Ty::Scalar("bool"), mode: 'a', default: false },
            Field { ident: "f3", name: ("", "f3"), ty: Ty::Opt(Box::new(Ty::Named("XR11"))), mode: 'a', default: false },
            Field { ident: "f4", name: ("", "f4"), ty: Ty::Scalar("u64"), mode: 'e', default: false },
            Field { ident: "f5", name: ("urn:p", "かな"), ty: Ty::Scalar("f64"), mode: 'e', default: false },
            Field { ident: "f6", name: ("", "f6"), ty: Ty::Opt(Box::new(Ty::Scalar("String"))), mode: 'e', default: true },
            Field { ident: "f7", name: ("", "f7"), ty: Ty::Opt(Box::new(Ty::Scalar("String"))), mode: 'e', default: false },
            Field { ident: "f8", name: ("urn:p", "f8"), ty: Ty::Scalar("f64"), mode: 'e', default: false },
            Field { ident: "f9", name: ("", "B"), ty: Ty::Opt(Box::new(Ty::Named("XR5"))), mode: 'a', default: false },
            Field { ident: "f10", name: ("", "x2"), ty: Ty::Opt(Box::new(Ty::Named("XR0"))), mode: 'a', default: false },
            Field { ident: "f11", name: ("urn:p", "x"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f12", name: ("", "f12"), ty: Ty::Opt(Box::new(Ty::Named("XU3"))), mode: 'a', default: false },
            Field { ident: "f13", name: ("urn:q", "f13"), ty: Ty::Opt(Box::new(Ty::Named("XU3"))), mode: 'a', default: true },
            Field { ident: "f14", name: ("urn:p", "f14"), ty: Ty::Many(Box::new(Ty::Scalar("String"))), mode: 'e', default: false },
            Field { ident: "f15", name: ("urn:q", "f15"), ty: Ty::Scalar("u64"), mode: 'e', default: false },
            Field { ident: "f16", name: ("urn:q", "f16"), ty: Ty::Opt(Box::new(Ty::Named("XU2"))), mode: 'a', default: false },
            Field { ident: "f17", name: ("", "f17"), ty: Ty::Opt(Box::new(Ty::Scalar("String"))), mode: 'a', default: true },
            Field { ident: "f18", name: ("urn:p/", "x1"), ty: Ty::Opt(Box::new(Ty::Named("XR1"))), mode: 'a', default: false },
            Field { ident: "f19", name: ("", "name"), ty: Ty::Opt(Box::new(Ty::Scalar("u64"))), mode: 'e', default: false },
            Field { ident: "f20", name: ("", "f20"), ty: Ty::Scalar("Tracked"), mode: 'e', default: false },
            Field { ident: "f21", name: ("", "abc"), ty: Ty::Many(Box::new(Ty::Scalar("u64"))), mode: 'e', default: true },
            Field { ident: "f22", name: ("urn:q", "x"), ty: Ty::Opt(Box::new(Ty::Scalar("f64"))), mode: 'a', default: true },
            Field { ident: "f23", name: ("urn:q", "f23"), ty: Ty::Opt(Box::new(Ty::Named("XUWide"))), mode: 'a', default: false },
            Field { ident: "f24", name: ("", "f24"), ty: Ty::Opt(Box::new(Ty::Named("XU5"))), mode: 'a', default: false },
            Field { ident: "f25", name: ("urn:p/", "a"), ty: Ty::Many(Box::new(Ty::Scalar("bool"))), mode: 'e', default: false },
            Field { ident: "f26", name: ("", "value"), ty: Ty::Opt(Box::new(Ty::Named("XR5"))), mode: 'a', default: false },
            Field { ident: "f27", name: ("urn:p/", "f27"), ty: Ty::Scalar("bool"), mode: 'e', default: false },
            Field { ident: "f28", name: ("urn:p", "f28"), ty: Ty::Opt(Box::new(Ty::Named("XR8"))), mode: 'a', default: false },
            Field { ident: "f29", name: ("urn:p", "f29"), ty: Ty::Opt(Box::new(Ty::Named("XR4"))), mode: 'a', default: false },
            Field { ident: "f30", name: ("urn:p/", "f30"), ty: Ty::Opt(Box::new(Ty::Scalar("Tracked"))), mode: 'e', default: true },
            Field { ident: "f31", name: ("urn:p/", "f31"), ty: Ty::Opt(Box::new(Ty::Scalar("f64"))), mode: 'a', default: false },
            Field { ident: "f32", name: ("", "x1"), ty: Ty::Scalar("Tracked"), mode: 'e', default: false },
            Field { ident: "f33", name: ("urn:p/", "かな"), ty: Ty::Many(Box::new(Ty::Scalar("Tracked"))), mode: 'e', default: false },
            Field { ident: "f34", name: ("", "b"), ty: Ty::Named("XR9"), mode: 'a', default: false },
            Field { ident: "f35", name: ("urn:p/", "abc"), ty: Ty::Named("XR1"), mode: 'a', default: false },
            Field { ident: "f36", name: ("urn:p/", "f36"), ty: Ty::Opt(Box::new(Ty::Scalar("bool"))), mode: 'e', default: false },
            Field { ident: "f37", name: ("", "UPPER.case"), ty: Ty::Opt(Box::new(Ty::Named("XR0"))), mode: 'a', default: false },
            Field { ident: "f38", name: ("urn:p", "a-b"), ty: Ty::Scalar("f64"), mode: 'e', default: true },
            Field { ident: "f39", name: ("urn:p", "f39"), ty: Ty::Named("XR7"), mode: 'a', default: false },
            Field { ident: "f40", name: ("urn:p/", "f40"), ty: Ty::Opt(Box::new(Ty::Named("XR4"))), mode: 'a', default: true },
            Field { ident: "f41", name: ("", "_u"), ty: Ty::Scalar("u64"), mode: 'e', default: true },
            Field { ident: "f42", name: ("", "f42"), ty: Ty::Opt(Box::new(Ty::Named("XR9"))), mode: 'a', default: true },
            Field { ident: "f43", name: ("urn:p", "f43"), ty: Ty::Opt(Box::new(Ty::Scalar("String"))), mode: 'e', default: false },
            Field { ident: "f44", name: ("", "z"), ty: Ty::Many(Box::new(Ty::Scalar("String"))), mode: 'e', default: false },
            Field { ident: "f45", name: ("", "f45"), ty: Ty::Scalar("bool"), mode: 'e', default: false },
            Field { ident: "f46", name: ("urn:p/", "f46"), ty: Ty::Opt(Box::new(Ty::Scalar("u64"))), mode: 'e', default: false },
            Field { ident: "f47", name: ("urn:q", "f47"), ty: Ty::Named("XU2"), mode: 'a', default: false },
            Field { ident: "f48", name: ("urn:q", "f48"), ty: Ty::Scalar("f64"), mode: 'a', default: false },
            Field { ident: "f49", name: ("", "x1"), ty: Ty::Named("XR9"), mode: 'a', default: false },
            Field { ident: "f50", name: ("urn:p", "Z"), ty: Ty::Opt(Box::new(Ty::Named("XR5"))), mode: 'a', default: false },
            Field { ident: "f51", name: ("", "f51"), ty: Ty::Opt(Box::new(Ty::Named("XU0"))), mode: 'a', default: false },
            Field { ident: "f52", name: ("", "f52"), ty: Ty::Many(Box::new(Ty::Scalar("Tracked"))), mode: 'e', default: false },
            Field { ident: "f53", name: ("urn:p", "f53"), ty: Ty::Opt(Box::new(Ty::Named("XU6"))), mode: 'a', default: false },
            Field { ident: "f54", name: ("", "f54"), ty: Ty::Opt(Box::new(Ty::Named("XR5"))), mode: 'a', default: false },
            Field { ident: "f55", name: ("urn:p/", "f55"), ty: Ty::Many(Box::new(Ty::Scalar("u64"))), mode: 'e', default: false },
            Field { ident: "f56", name: ("urn:p", "f56"), ty: Ty::Opt(Box::new(Ty::Named("XR2"))), mode: 'a', default: false },
            Field { ident: "f57", name: ("", "f57"), ty: Ty::Many(Box::new(Ty::Scalar("bool"))), mode: 'e', default: true },
            Field { ident: "f58", name: ("", "f58"), ty: Ty::Scalar("i32"), mode: 'a', default: false },
            Field { ident: "f59", name: ("urn:q", "f59"), ty: Ty::Scalar("f64"), mode: 'e', default: false },
            Field { ident: "f60", name: ("urn:q", "id"), ty: Ty::Opt(Box::new(Ty::Named("XR9"))), mode: 'a', default: false },
            Field { ident: "f61", name: ("", "type"), ty: Ty::Scalar("f64"), mode: 'e', default: false },
            Field { ident: "f62", name: ("urn:p", "UPPER.case"), ty: Ty::Named("XU6"), mode: 'a', default: false },
            Field { ident: "f63", name: ("urn:p/", "f63"), ty: Ty::Opt(Box::new(Ty::Named("Color"))), mode: 'a', default: false },
            Field { ident: "f64", name: ("urn:q", "f64"), ty: Ty::Opt(Box::new(Ty::Scalar("Tracked"))), mode: 'a', default: false },
            Field { ident: "f65", name: ("", "かな"), ty: Ty::Named("Color"), mode: 'a', default: false },
            Field { ident: "f66", name: ("", "f66"), ty: Ty::Opt(Box::new(Ty::Named("XR0"))), mode: 'a', default: false },
            Field { ident: "f67", name: ("", "f67"), ty: Ty::Many(Box::new(Ty::Scalar("i32"))), mode: 'e', default: true },
            Field { ident: "f68", name: ("", "_u"), ty: Ty::Opt(Box::new(Ty::Named("Pair"))), mode: 'a', default: false },
            Field { ident: "f69", name: ("urn:p", "f69"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
        ] }),
        ("XSHuge", Def::Struct { root: ("", "XSHuge"), namespaces: vec![], fields: vec![
            Field { ident: "f0", name: ("", "n0"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f1", name: ("", "n856"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f2", name: ("", "n703"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f3", name: ("", "n550"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f4", name: ("", "n397"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f5", name: ("", "n244"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f6", name: ("", "n91"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f7", name: ("", "n947"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f8", name: ("", "n794"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f9", name: ("", "n641"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f10", name: ("", "n488"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f11", name: ("", "n335"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f12", name: ("", "n182"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f13", name: ("", "n29"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f14", name: ("", "n885"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f15", name: ("", "n732"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f16", name: ("", "n579"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f17", name: ("", "n426"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f18", name: ("", "n273"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f19", name: ("", "n120"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f20", name: ("", "n976"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f21", name: ("", "n823"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f22", name: ("", "n670"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f23", name: ("", "n517"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f24", name: ("", "n364"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f25", name: ("", "n211"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f26", name: ("", "n58"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f27", name: ("", "n914"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f28", name: ("", "n761"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f29", name: ("", "n608"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f30", name: ("", "n455"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f31", name: ("", "n302"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f32", name: ("", "n149"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f33", name: ("", "n1005"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f34", name: ("", "n852"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f35", name: ("", "n699"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f36", name: ("", "n546"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f37", name: ("", "n393"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f38", name: ("", "n240"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f39", name: ("", "n87"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f40", name: ("", "n943"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f41", name: ("", "n790"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f42", name: ("", "n637"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f43", name: ("", "n484"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f44", name: ("", "n331"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f45", name: ("", "n178"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f46", name: ("", "n25"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f47", name: ("", "n881"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f48", name: ("", "n728"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f49", name: ("", "n575"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f50", name: ("", "n422"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f51", name: ("", "n269"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f52", name: ("", "n116"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f53", name: ("", "n972"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f54", name: ("", "n819"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f55", name: ("", "n666"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f56", name: ("", "n513"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f57", name: ("", "n360"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f58", name: ("", "n207"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f59", name: ("", "n54"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f60", name: ("", "n910"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f61", name: ("", "n757"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f62", name: ("", "n604"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f63", name: ("", "n451"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f64", name: ("", "n298"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f65", name: ("", "n145"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f66", name: ("", "n1001"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f67", name: ("", "n848"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f68", name: ("", "n695"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f69", name: ("", "n542"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f70", name: ("", "n389"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f71", name: ("", "n236"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f72", name: ("", "n83"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f73", name: ("", "n939"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f74", name: ("", "n786"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f75", name: ("", "n633"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f76", name: ("", "n480"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f77", name: ("", "n327"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f78", name: ("", "n174"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f79", name: ("", "n21"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f80", name: ("", "n877"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f81", name: ("", "n724"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f82", name: ("", "n571"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f83", name: ("", "n418"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f84", name: ("", "n265"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f85", name: ("", "n112"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f86", name: ("", "n968"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f87", name: ("", "n815"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f88", name: ("", "n662"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f89", name: ("", "n509"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f90", name: ("", "n356"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f91", name: ("", "n203"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f92", name: ("", "n50"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f93", name: ("", "n906"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f94", name: ("", "n753"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f95", name: ("", "n600"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f96", name: ("", "n447"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f97", name: ("", "n294"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f98", name: ("", "n141"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f99", name: ("", "n997"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f100", name: ("", "n844"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f101", name: ("", "n691"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f102", name: ("", "n538"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f103", name: ("", "n385"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f104", name: ("", "n232"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f105", name: ("", "n79"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f106", name: ("", "n935"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f107", name: ("", "n782"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f108", name: ("", "n629"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f109", name: ("", "n476"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f110", name: ("", "n323"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f111", name: ("", "n170"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f112", name: ("", "n17"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f113", name: ("", "n873"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f114", name: ("", "n720"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f115", name: ("", "n567"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f116", name: ("", "n414"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f117", name: ("", "n261"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f118", name: ("", "n108"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f119", name: ("", "n964"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f120", name: ("", "n811"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f121", name: ("", "n658"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f122", name: ("", "n505"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f123", name: ("", "n352"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f124", name: ("", "n199"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f125", name: ("", "n46"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f126", name: ("", "n902"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f127", name: ("", "n749"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f128", name: ("", "n596"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f129", name: ("", "n443"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f130", name: ("", "n290"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f131", name: ("", "n137"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f132", name: ("", "n993"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f133", name: ("", "n840"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f134", name: ("", "n687"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f135", name: ("", "n534"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f136", name: ("", "n381"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f137", name: ("", "n228"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f138", name: ("", "n75"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f139", name: ("", "n931"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f140", name: ("", "n778"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f141", name: ("", "n625"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f142", name: ("", "n472"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f143", name: ("", "n319"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f144", name: ("", "n166"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f145", name: ("", "n13"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f146", name: ("", "n869"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f147", name: ("", "n716"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f148", name: ("", "n563"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f149", name: ("", "n410"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f150", name: ("", "n257"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f151", name: ("", "n104"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f152", name: ("", "n960"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f153", name: ("", "n807"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f154", name: ("", "n654"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f155", name: ("", "n501"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f156", name: ("", "n348"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f157", name: ("", "n195"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f158", name: ("", "n42"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f159", name: ("", "n898"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f160", name: ("", "n745"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f161", name: ("", "n592"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f162", name: ("", "n439"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f163", name: ("", "n286"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f164", name: ("", "n133"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f165", name: ("", "n989"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f166", name: ("", "n836"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f167", name: ("", "n683"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f168", name: ("", "n530"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f169", name: ("", "n377"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f170", name: ("", "n224"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f171", name: ("", "n71"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f172", name: ("", "n927"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f173", name: ("", "n774"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f174", name: ("", "n621"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f175", name: ("", "n468"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f176", name: ("", "n315"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f177", name: ("", "n162"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f178", name: ("", "n9"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f179", name: ("", "n865"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f180", name: ("", "n712"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f181", name: ("", "n559"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f182", name: ("", "n406"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f183", name: ("", "n253"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f184", name: ("", "n100"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f185", name: ("", "n956"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f186", name: ("", "n803"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f187", name: ("", "n650"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f188", name: ("", "n497"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f189", name: ("", "n344"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f190", name: ("", "n191"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f191", name: ("", "n38"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f192", name: ("", "n894"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f193", name: ("", "n741"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f194", name: ("", "n588"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f195", name: ("", "n435"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f196", name: ("", "n282"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f197", name: ("", "n129"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f198", name: ("", "n985"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f199", name: ("", "n832"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f200", name: ("", "n679"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f201", name: ("", "n526"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f202", name: ("", "n373"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f203", name: ("", "n220"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f204", name: ("", "n67"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f205", name: ("", "n923"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f206", name: ("", "n770"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f207", name: ("", "n617"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f208", name: ("", "n464"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f209", name: ("", "n311"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f210", name: ("", "n158"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f211", name: ("", "n5"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f212", name: ("", "n861"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f213", name: ("", "n708"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f214", name: ("", "n555"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f215", name: ("", "n402"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f216", name: ("", "n249"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f217", name: ("", "n96"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f218", name: ("", "n952"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f219", name: ("", "n799"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f220", name: ("", "n646"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f221", name: ("", "n493"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f222", name: ("", "n340"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f223", name: ("", "n187"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f224", name: ("", "n34"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f225", name: ("", "n890"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f226", name: ("", "n737"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f227", name: ("", "n584"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f228", name: ("", "n431"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f229", name: ("", "n278"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f230", name: ("", "n125"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f231", name: ("", "n981"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f232", name: ("", "n828"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f233", name: ("", "n675"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f234", name: ("", "n522"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f235", name: ("", "n369"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f236", name: ("", "n216"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f237", name: ("", "n63"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f238", name: ("", "n919"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f239", name: ("", "n766"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f240", name: ("", "n613"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f241", name: ("", "n460"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f242", name: ("", "n307"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f243", name: ("", "n154"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f244", name: ("", "n1"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f245", name: ("", "n857"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f246", name: ("", "n704"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f247", name: ("", "n551"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f248", name: ("", "n398"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f249", name: ("", "n245"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f250", name: ("", "n92"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f251", name: ("", "n948"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f252", name: ("", "n795"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f253", name: ("", "n642"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f254", name: ("", "n489"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f255", name: ("", "n336"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f256", name: ("", "n183"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f257", name: ("", "n30"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f258", name: ("", "n886"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f259", name: ("", "n733"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f260", name: ("", "n580"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f261", name: ("", "n427"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f262", name: ("", "n274"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f263", name: ("", "n121"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f264", name: ("", "n977"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f265", name: ("", "n824"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f266", name: ("", "n671"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f267", name: ("", "n518"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f268", name: ("", "n365"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f269", name: ("", "n212"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f270", name: ("", "n59"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f271", name: ("", "n915"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f272", name: ("", "n762"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f273", name: ("", "n609"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f274", name: ("", "n456"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f275", name: ("", "n303"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f276", name: ("", "n150"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f277", name: ("", "n1006"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f278", name: ("", "n853"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f279", name: ("", "n700"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f280", name: ("", "n547"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f281", name: ("", "n394"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f282", name: ("", "n241"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f283", name: ("", "n88"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f284", name: ("", "n944"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f285", name: ("", "n791"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f286", name: ("", "n638"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f287", name: ("", "n485"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f288", name: ("", "n332"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f289", name: ("", "n179"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f290", name: ("", "n26"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f291", name: ("", "n882"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f292", name: ("", "n729"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f293", name: ("", "n576"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f294", name: ("", "n423"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f295", name: ("", "n270"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f296", name: ("", "n117"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f297", name: ("", "n973"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f298", name: ("", "n820"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f299", name: ("", "n667"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f300", name: ("", "n514"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f301", name: ("", "n361"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f302", name: ("", "n208"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f303", name: ("", "n55"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f304", name: ("", "n911"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f305", name: ("", "n758"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f306", name: ("", "n605"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f307", name: ("", "n452"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f308", name: ("", "n299"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f309", name: ("", "n146"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f310", name: ("", "n1002"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f311", name: ("", "n849"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f312", name: ("", "n696"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f313", name: ("", "n543"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f314", name: ("", "n390"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f315", name: ("", "n237"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f316", name: ("", "n84"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f317", name: ("", "n940"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f318", name: ("", "n787"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f319", name: ("", "n634"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f320", name: ("", "n481"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f321", name: ("", "n328"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f322", name: ("", "n175"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f323", name: ("", "n22"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f324", name: ("", "n878"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f325", name: ("", "n725"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f326", name: ("", "n572"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f327", name: ("", "n419"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f328", name: ("", "n266"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f329", name: ("", "n113"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f330", name: ("", "n969"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f331", name: ("", "n816"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f332", name: ("", "n663"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f333", name: ("", "n510"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f334", name: ("", "n357"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f335", name: ("", "n204"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f336", name: ("", "n51"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f337", name: ("", "n907"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f338", name: ("", "n754"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f339", name: ("", "n601"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f340", name: ("", "n448"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f341", name: ("", "n295"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f342", name: ("", "n142"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f343", name: ("", "n998"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f344", name: ("", "n845"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f345", name: ("", "n692"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f346", name: ("", "n539"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f347", name: ("", "n386"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f348", name: ("", "n233"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f349", name: ("", "n80"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f350", name: ("", "n936"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f351", name: ("", "n783"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f352", name: ("", "n630"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f353", name: ("", "n477"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f354", name: ("", "n324"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f355", name: ("", "n171"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f356", name: ("", "n18"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f357", name: ("", "n874"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f358", name: ("", "n721"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f359", name: ("", "n568"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f360", name: ("", "n415"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f361", name: ("", "n262"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f362", name: ("", "n109"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f363", name: ("", "n965"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f364", name: ("", "n812"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f365", name: ("", "n659"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f366", name: ("", "n506"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f367", name: ("", "n353"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f368", name: ("", "n200"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f369", name: ("", "n47"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f370", name: ("", "n903"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f371", name: ("", "n750"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f372", name: ("", "n597"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f373", name: ("", "n444"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f374", name: ("", "n291"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f375", name: ("", "n138"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f376", name: ("", "n994"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f377", name: ("", "n841"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f378", name: ("", "n688"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f379", name: ("", "n535"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f380", name: ("", "n382"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f381", name: ("", "n229"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f382", name: ("", "n76"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f383", name: ("", "n932"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f384", name: ("", "n779"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f385", name: ("", "n626"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f386", name: ("", "n473"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f387", name: ("", "n320"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f388", name: ("", "n167"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f389", name: ("", "n14"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f390", name: ("", "n870"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f391", name: ("", "n717"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f392", name: ("", "n564"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f393", name: ("", "n411"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f394", name: ("", "n258"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f395", name: ("", "n105"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f396", name: ("", "n961"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f397", name: ("", "n808"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f398", name: ("", "n655"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f399", name: ("", "n502"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f400", name: ("", "n349"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f401", name: ("", "n196"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f402", name: ("", "n43"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f403", name: ("", "n899"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f404", name: ("", "n746"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f405", name: ("", "n593"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f406", name: ("", "n440"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f407", name: ("", "n287"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f408", name: ("", "n134"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f409", name: ("", "n990"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f410", name: ("", "n837"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f411", name: ("", "n684"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f412", name: ("", "n531"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f413", name: ("", "n378"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f414", name: ("", "n225"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f415", name: ("", "n72"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f416", name: ("", "n928"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f417", name: ("", "n775"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f418", name: ("", "n622"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f419", name: ("", "n469"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f420", name: ("", "n316"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f421", name: ("", "n163"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f422", name: ("", "n10"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f423", name: ("", "n866"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f424", name: ("", "n713"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f425", name: ("", "n560"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f426", name: ("", "n407"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f427", name: ("", "n254"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f428", name: ("", "n101"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f429", name: ("", "n957"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f430", name: ("", "n804"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f431", name: ("", "n651"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f432", name: ("", "n498"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f433", name: ("", "n345"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f434", name: ("", "n192"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f435", name: ("", "n39"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f436", name: ("", "n895"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f437", name: ("", "n742"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f438", name: ("", "n589"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f439", name: ("", "n436"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f440", name: ("", "n283"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f441", name: ("", "n130"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f442", name: ("", "n986"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f443", name: ("", "n833"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f444", name: ("", "n680"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f445", name: ("", "n527"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f446", name: ("", "n374"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f447", name: ("", "n221"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f448", name: ("", "n68"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f449", name: ("", "n924"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f450", name: ("", "n771"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f451", name: ("", "n618"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f452", name: ("", "n465"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f453", name: ("", "n312"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f454", name: ("", "n159"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f455", name: ("", "n6"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f456", name: ("", "n862"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f457", name: ("", "n709"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f458", name: ("", "n556"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f459", name: ("", "n403"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f460", name: ("", "n250"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f461", name: ("", "n97"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f462", name: ("", "n953"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f463", name: ("", "n800"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f464", name: ("", "n647"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f465", name: ("", "n494"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f466", name: ("", "n341"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f467", name: ("", "n188"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f468", name: ("", "n35"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f469", name: ("", "n891"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f470", name: ("", "n738"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f471", name: ("", "n585"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f472", name: ("", "n432"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f473", name: ("", "n279"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f474", name: ("", "n126"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f475", name: ("", "n982"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f476", name: ("", "n829"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f477", name: ("", "n676"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f478", name: ("", "n523"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f479", name: ("", "n370"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f480", name: ("", "n217"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f481", name: ("", "n64"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f482", name: ("", "n920"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f483", name: ("", "n767"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f484", name: ("", "n614"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f485", name: ("", "n461"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f486", name: ("", "n308"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f487", name: ("", "n155"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f488", name: ("", "n2"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f489", name: ("", "n858"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f490", name: ("", "n705"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f491", name: ("", "n552"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f492", name: ("", "n399"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f493", name: ("", "n246"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f494", name: ("", "n93"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f495", name: ("", "n949"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f496", name: ("", "n796"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f497", name: ("", "n643"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f498", name: ("", "n490"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f499", name: ("", "n337"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f500", name: ("", "n184"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f501", name: ("", "n31"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f502", name: ("", "n887"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f503", name: ("", "n734"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f504", name: ("", "n581"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f505", name: ("", "n428"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f506", name: ("", "n275"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f507", name: ("", "n122"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f508", name: ("", "n978"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f509", name: ("", "n825"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f510", name: ("", "n672"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f511", name: ("", "n519"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f512", name: ("", "n366"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f513", name: ("", "n213"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f514", name: ("", "n60"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f515", name: ("", "n916"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f516", name: ("", "n763"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f517", name: ("", "n610"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f518", name: ("", "n457"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f519", name: ("", "n304"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f520", name: ("", "n151"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f521", name: ("", "n1007"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f522", name: ("", "n854"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f523", name: ("", "n701"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f524", name: ("", "n548"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f525", name: ("", "n395"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f526", name: ("", "n242"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f527", name: ("", "n89"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f528", name: ("", "n945"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f529", name: ("", "n792"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f530", name: ("", "n639"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f531", name: ("", "n486"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f532", name: ("", "n333"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f533", name: ("", "n180"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f534", name: ("", "n27"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f535", name: ("", "n883"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f536", name: ("", "n730"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f537", name: ("", "n577"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f538", name: ("", "n424"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f539", name: ("", "n271"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f540", name: ("", "n118"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f541", name: ("", "n974"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f542", name: ("", "n821"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f543", name: ("", "n668"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f544", name: ("", "n515"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f545", name: ("", "n362"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f546", name: ("", "n209"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f547", name: ("", "n56"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f548", name: ("", "n912"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f549", name: ("", "n759"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f550", name: ("", "n606"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f551", name: ("", "n453"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f552", name: ("", "n300"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f553", name: ("", "n147"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f554", name: ("", "n1003"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f555", name: ("", "n850"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f556", name: ("", "n697"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f557", name: ("", "n544"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
            Field { ident: "f558", name: ("", "n391"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
            Field { ident: "f559", name: ("", "n238"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
        ] }),
        ("XEHuge", Def::Enum { root: ("", "XEHuge"), namespaces: vec![], variants: vec![
            Variant { ident: "V0", name: ("", "n0"), ty: None, skip: false },
            Variant { ident: "V1", name: ("", "n856"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V2", name: ("", "n703"), ty: None, skip: false },
            Variant { ident: "V3", name: ("", "n550"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V4", name: ("", "n397"), ty: None, skip: false },
            Variant { ident: "V5", name: ("", "n244"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V6", name: ("", "n91"), ty: None, skip: false },
            Variant { ident: "V7", name: ("", "n947"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V8", name: ("", "n794"), ty: None, skip: false },
            Variant { ident: "V9", name: ("", "n641"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V10", name: ("", "n488"), ty: None, skip: false },
            Variant { ident: "V11", name: ("", "n335"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V12", name: ("", "n182"), ty: None, skip: false },
            Variant { ident: "V13", name: ("", "n29"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V14", name: ("", "n885"), ty: None, skip: false },
            Variant { ident: "V15", name: ("", "n732"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V16", name: ("", "n579"), ty: None, skip: false },
            Variant { ident: "V17", name: ("", "n426"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V18", name: ("", "n273"), ty: None, skip: false },
            Variant { ident: "V19", name: ("", "n120"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V20", name: ("", "n976"), ty: None, skip: false },
            Variant { ident: "V21", name: ("", "n823"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V22", name: ("", "n670"), ty: None, skip: false },
            Variant { ident: "V23", name: ("", "n517"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V24", name: ("", "n364"), ty: None, skip: false },
            Variant { ident: "V25", name: ("", "n211"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V26", name: ("", "n58"), ty: None, skip: false },
            Variant { ident: "V27", name: ("", "n914"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V28", name: ("", "n761"), ty: None, skip: false },
            Variant { ident: "V29", name: ("", "n608"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V30", name: ("", "n455"), ty: None, skip: false },
            Variant { ident: "V31", name: ("", "n302"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V32", name: ("", "n149"), ty: None, skip: false },
            Variant { ident: "V33", name: ("", "n1005"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V34", name: ("", "n852"), ty: None, skip: false },
            Variant { ident: "V35", name: ("", "n699"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V36", name: ("", "n546"), ty: None, skip: false },
            Variant { ident: "V37", name: ("", "n393"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V38", name: ("", "n240"), ty: None, skip: false },
            Variant { ident: "V39", name: ("", "n87"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V40", name: ("", "n943"), ty: None, skip: false },
            Variant { ident: "V41", name: ("", "n790"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V42", name: ("", "n637"), ty: None, skip: false },
            Variant { ident: "V43", name: ("", "n484"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V44", name: ("", "n331"), ty: None, skip: false },
            Variant { ident: "V45", name: ("", "n178"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V46", name: ("", "n25"), ty: None, skip: false },
            Variant { ident: "V47", name: ("", "n881"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V48", name: ("", "n728"), ty: None, skip: false },
            Variant { ident: "V49", name: ("", "n575"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V50", name: ("", "n422"), ty: None, skip: false },
            Variant { ident: "V51", name: ("", "n269"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V52", name: ("", "n116"), ty: None, skip: false },
            Variant { ident: "V53", name: ("", "n972"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V54", name: ("", "n819"), ty: None, skip: false },
            Variant { ident: "V55", name: ("", "n666"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V56", name: ("", "n513"), ty: None, skip: false },
            Variant { ident: "V57", name: ("", "n360"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V58", name: ("", "n207"), ty: None, skip: false },
            Variant { ident: "V59", name: ("", "n54"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V60", name: ("", "n910"), ty: None, skip: false },
            Variant { ident: "V61", name: ("", "n757"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V62", name: ("", "n604"), ty: None, skip: false },
            Variant { ident: "V63", name: ("", "n451"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V64", name: ("", "n298"), ty: None, skip: false },
            Variant { ident: "V65", name: ("", "n145"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V66", name: ("", "n1001"), ty: None, skip: false },
            Variant { ident: "V67", name: ("", "n848"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V68", name: ("", "n695"), ty: None, skip: false },
            Variant { ident: "V69", name: ("", "n542"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V70", name: ("", "n389"), ty: None, skip: false },
            Variant { ident: "V71", name: ("", "n236"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V72", name: ("", "n83"), ty: None, skip: false },
            Variant { ident: "V73", name: ("", "n939"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V74", name: ("", "n786"), ty: None, skip: false },
            Variant { ident: "V75", name: ("", "n633"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V76", name: ("", "n480"), ty: None, skip: false },
            Variant { ident: "V77", name: ("", "n327"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V78", name: ("", "n174"), ty: None, skip: false },
            Variant { ident: "V79", name: ("", "n21"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V80", name: ("", "n877"), ty: None, skip: false },
            Variant { ident: "V81", name: ("", "n724"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V82", name: ("", "n571"), ty: None, skip: false },
            Variant { ident: "V83", name: ("", "n418"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V84", name: ("", "n265"), ty: None, skip: false },
            Variant { ident: "V85", name: ("", "n112"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V86", name: ("", "n968"), ty: None, skip: false },
            Variant { ident: "V87", name: ("", "n815"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V88", name: ("", "n662"), ty: None, skip: false },
            Variant { ident: "V89", name: ("", "n509"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V90", name: ("", "n356"), ty: None, skip: false },
            Variant { ident: "V91", name: ("", "n203"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V92", name: ("", "n50"), ty: None, skip: false },
            Variant { ident: "V93", name: ("", "n906"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V94", name: ("", "n753"), ty: None, skip: false },
            Variant { ident: "V95", name: ("", "n600"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V96", name: ("", "n447"), ty: None, skip: false },
            Variant { ident: "V97", name: ("", "n294"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V98", name: ("", "n141"), ty: None, skip: false },
            Variant { ident: "V99", name: ("", "n997"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V100", name: ("", "n844"), ty: None, skip: false },
            Variant { ident: "V101", name: ("", "n691"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V102", name: ("", "n538"), ty: None, skip: false },
            Variant { ident: "V103", name: ("", "n385"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V104", name: ("", "n232"), ty: None, skip: false },
            Variant { ident: "V105", name: ("", "n79"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V106", name: ("", "n935"), ty: None, skip: false },
            Variant { ident: "V107", name: ("", "n782"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V108", name: ("", "n629"), ty: None, skip: false },
            Variant { ident: "V109", name: ("", "n476"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V110", name: ("", "n323"), ty: None, skip: false },
            Variant { ident: "V111", name: ("", "n170"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V112", name: ("", "n17"), ty: None, skip: false },
            Variant { ident: "V113", name: ("", "n873"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V114", name: ("", "n720"), ty: None, skip: false },
            Variant { ident: "V115", name: ("", "n567"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V116", name: ("", "n414"), ty: None, skip: false },
            Variant { ident: "V117", name: ("", "n261"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V118", name: ("", "n108"), ty: None, skip: false },
            Variant { ident: "V119", name: ("", "n964"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V120", name: ("", "n811"), ty: None, skip: false },
            Variant { ident: "V121", name: ("", "n658"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V122", name: ("", "n505"), ty: None, skip: false },
            Variant { ident: "V123", name: ("", "n352"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V124", name: ("", "n199"), ty: None, skip: false },
            Variant { ident: "V125", name: ("", "n46"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V126", name: ("", "n902"), ty: None, skip: false },
            Variant { ident: "V127", name: ("", "n749"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V128", name: ("", "n596"), ty: None, skip: false },
            Variant { ident: "V129", name: ("", "n443"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V130", name: ("", "n290"), ty: None, skip: false },
            Variant { ident: "V131", name: ("", "n137"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V132", name: ("", "n993"), ty: None, skip: false },
            Variant { ident: "V133", name: ("", "n840"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V134", name: ("", "n687"), ty: None, skip: false },
            Variant { ident: "V135", name: ("", "n534"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V136", name: ("", "n381"), ty: None, skip: false },
            Variant { ident: "V137", name: ("", "n228"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V138", name: ("", "n75"), ty: None, skip: false },
            Variant { ident: "V139", name: ("", "n931"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V140", name: ("", "n778"), ty: None, skip: false },
            Variant { ident: "V141", name: ("", "n625"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V142", name: ("", "n472"), ty: None, skip: false },
            Variant { ident: "V143", name: ("", "n319"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V144", name: ("", "n166"), ty: None, skip: false },
            Variant { ident: "V145", name: ("", "n13"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V146", name: ("", "n869"), ty: None, skip: false },
            Variant { ident: "V147", name: ("", "n716"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V148", name: ("", "n563"), ty: None, skip: false },
            Variant { ident: "V149", name: ("", "n410"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V150", name: ("", "n257"), ty: None, skip: false },
            Variant { ident: "V151", name: ("", "n104"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V152", name: ("", "n960"), ty: None, skip: false },
            Variant { ident: "V153", name: ("", "n807"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V154", name: ("", "n654"), ty: None, skip: false },
            Variant { ident: "V155", name: ("", "n501"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V156", name: ("", "n348"), ty: None, skip: false },
            Variant { ident: "V157", name: ("", "n195"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V158", name: ("", "n42"), ty: None, skip: false },
            Variant { ident: "V159", name: ("", "n898"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V160", name: ("", "n745"), ty: None, skip: false },
            Variant { ident: "V161", name: ("", "n592"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V162", name: ("", "n439"), ty: None, skip: false },
            Variant { ident: "V163", name: ("", "n286"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V164", name: ("", "n133"), ty: None, skip: false },
            Variant { ident: "V165", name: ("", "n989"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V166", name: ("", "n836"), ty: None, skip: false },
            Variant { ident: "V167", name: ("", "n683"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V168", name: ("", "n530"), ty: None, skip: false },
            Variant { ident: "V169", name: ("", "n377"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V170", name: ("", "n224"), ty: None, skip: false },
            Variant { ident: "V171", name: ("", "n71"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V172", name: ("", "n927"), ty: None, skip: false },
            Variant { ident: "V173", name: ("", "n774"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V174", name: ("", "n621"), ty: None, skip: false },
            Variant { ident: "V175", name: ("", "n468"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V176", name: ("", "n315"), ty: None, skip: false },
            Variant { ident: "V177", name: ("", "n162"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V178", name: ("", "n9"), ty: None, skip: false },
            Variant { ident: "V179", name: ("", "n865"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V180", name: ("", "n712"), ty: None, skip: false },
            Variant { ident: "V181", name: ("", "n559"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V182", name: ("", "n406"), ty: None, skip: false },
            Variant { ident: "V183", name: ("", "n253"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V184", name: ("", "n100"), ty: None, skip: false },
            Variant { ident: "V185", name: ("", "n956"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V186", name: ("", "n803"), ty: None, skip: false },
            Variant { ident: "V187", name: ("", "n650"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V188", name: ("", "n497"), ty: None, skip: false },
            Variant { ident: "V189", name: ("", "n344"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V190", name: ("", "n191"), ty: None, skip: false },
            Variant { ident: "V191", name: ("", "n38"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V192", name: ("", "n894"), ty: None, skip: false },
            Variant { ident: "V193", name: ("", "n741"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V194", name: ("", "n588"), ty: None, skip: false },
            Variant { ident: "V195", name: ("", "n435"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V196", name: ("", "n282"), ty: None, skip: false },
            Variant { ident: "V197", name: ("", "n129"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V198", name: ("", "n985"), ty: None, skip: false },
            Variant { ident: "V199", name: ("", "n832"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V200", name: ("", "n679"), ty: None, skip: false },
            Variant { ident: "V201", name: ("", "n526"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V202", name: ("", "n373"), ty: None, skip: false },
            Variant { ident: "V203", name: ("", "n220"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V204", name: ("", "n67"), ty: None, skip: false },
            Variant { ident: "V205", name: ("", "n923"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V206", name: ("", "n770"), ty: None, skip: false },
            Variant { ident: "V207", name: ("", "n617"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V208", name: ("", "n464"), ty: None, skip: false },
            Variant { ident: "V209", name: ("", "n311"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V210", name: ("", "n158"), ty: None, skip: false },
            Variant { ident: "V211", name: ("", "n5"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V212", name: ("", "n861"), ty: None, skip: false },
            Variant { ident: "V213", name: ("", "n708"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V214", name: ("", "n555"), ty: None, skip: false },
            Variant { ident: "V215", name: ("", "n402"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V216", name: ("", "n249"), ty: None, skip: false },
            Variant { ident: "V217", name: ("", "n96"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V218", name: ("", "n952"), ty: None, skip: false },
            Variant { ident: "V219", name: ("", "n799"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V220", name: ("", "n646"), ty: None, skip: false },
            Variant { ident: "V221", name: ("", "n493"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V222", name: ("", "n340"), ty: None, skip: false },
            Variant { ident: "V223", name: ("", "n187"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V224", name: ("", "n34"), ty: None, skip: false },
            Variant { ident: "V225", name: ("", "n890"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V226", name: ("", "n737"), ty: None, skip: false },
            Variant { ident: "V227", name: ("", "n584"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V228", name: ("", "n431"), ty: None, skip: false },
            Variant { ident: "V229", name: ("", "n278"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V230", name: ("", "n125"), ty: None, skip: false },
            Variant { ident: "V231", name: ("", "n981"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V232", name: ("", "n828"), ty: None, skip: false },
            Variant { ident: "V233", name: ("", "n675"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V234", name: ("", "n522"), ty: None, skip: false },
            Variant { ident: "V235", name: ("", "n369"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V236", name: ("", "n216"), ty: None, skip: false },
            Variant { ident: "V237", name: ("", "n63"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V238", name: ("", "n919"), ty: None, skip: false },
            Variant { ident: "V239", name: ("", "n766"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V240", name: ("", "n613"), ty: None, skip: false },
            Variant { ident: "V241", name: ("", "n460"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V242", name: ("", "n307"), ty: None, skip: false },
            Variant { ident: "V243", name: ("", "n154"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V244", name: ("", "n1"), ty: None, skip: false },
            Variant { ident: "V245", name: ("", "n857"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V246", name: ("", "n704"), ty: None, skip: false },
            Variant { ident: "V247", name: ("", "n551"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V248", name: ("", "n398"), ty: None, skip: false },
            Variant { ident: "V249", name: ("", "n245"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V250", name: ("", "n92"), ty: None, skip: false },
            Variant { ident: "V251", name: ("", "n948"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V252", name: ("", "n795"), ty: None, skip: false },
            Variant { ident: "V253", name: ("", "n642"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V254", name: ("", "n489"), ty: None, skip: false },
            Variant { ident: "V255", name: ("", "n336"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V256", name: ("", "n183"), ty: None, skip: false },
            Variant { ident: "V257", name: ("", "n30"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V258", name: ("", "n886"), ty: None, skip: false },
            Variant { ident: "V259", name: ("", "n733"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V260", name: ("", "n580"), ty: None, skip: false },
            Variant { ident: "V261", name: ("", "n427"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V262", name: ("", "n274"), ty: None, skip: false },
            Variant { ident: "V263", name: ("", "n121"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V264", name: ("", "n977"), ty: None, skip: false },
            Variant { ident: "V265", name: ("", "n824"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V266", name: ("", "n671"), ty: None, skip: false },
            Variant { ident: "V267", name: ("", "n518"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V268", name: ("", "n365"), ty: None, skip: false },
            Variant { ident: "V269", name: ("", "n212"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V270", name: ("", "n59"), ty: None, skip: false },
            Variant { ident: "V271", name: ("", "n915"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V272", name: ("", "n762"), ty: None, skip: false },
            Variant { ident: "V273", name: ("", "n609"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V274", name: ("", "n456"), ty: None, skip: false },
            Variant { ident: "V275", name: ("", "n303"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V276", name: ("", "n150"), ty: None, skip: false },
            Variant { ident: "V277", name: ("", "n1006"), ty: Some(Ty::Scalar("i32")), skip: false },
            Variant { ident: "V278", name: ("", "n853"), ty: None, skip: false },
            Variant { ident: "V279", name: ("", "n700"), ty: Some(Ty::Scalar("i32")), skip: false },
        ] }),
        ("XO0_0", Def::Struct { root: ("", "XO0_0"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("String"), mode: 'a', default: false },
        ] }),
        ("XO0_1", Def::Struct { root: ("", "XO0_1"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Scalar("String"))), mode: 'a', default: false },
        ] }),
        ("XO0_2", Def::Struct { root: ("", "XO0_2"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("String"), mode: 'e', default: false },
        ] }),
        ("XO0_3", Def::Struct { root: ("", "XO0_3"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Scalar("String"))), mode: 'e', default: false },
        ] }),
        ("XO0_4", Def::Struct { root: ("", "XO0_4"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Many(Box::new(Ty::Scalar("String"))), mode: 'e', default: false },
        ] }),
        ("XO0_5", Def::Struct { root: ("", "XO0_5"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("String"), mode: 'a', default: true },
        ] }),
        ("XO0_6", Def::Struct { root: ("", "XO0_6"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("String"), mode: 'e', default: true },
        ] }),
        ("XO1_0", Def::Struct { root: ("", "XO1_0"), namespaces: vec![("t", "URN:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("bool"), mode: 'a', default: false },
        ] }),
        ("XO1_1", Def::Struct { root: ("", "XO1_1"), namespaces: vec![("pp", "urn:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Scalar("bool"))), mode: 'a', default: false },
        ] }),
        ("XO1_2", Def::Struct { root: ("", "XO1_2"), namespaces: vec![("pp", "urn:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("bool"), mode: 'e', default: false },
        ] }),
        ("XO1_3", Def::Struct { root: ("", "XO1_3"), namespaces: vec![("t", "URN:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Scalar("bool"))), mode: 'e', default: false },
        ] }),
        ("XO1_4", Def::Struct { root: ("", "XO1_4"), namespaces: vec![("t", "URN:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Many(Box::new(Ty::Scalar("bool"))), mode: 'e', default: false },
        ] }),
        ("XO1_5", Def::Struct { root: ("", "XO1_5"), namespaces: vec![("p", "urn:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("bool"), mode: 'a', default: true },
        ] }),
        ("XO1_6", Def::Struct { root: ("", "XO1_6"), namespaces: vec![("t", "URN:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("bool"), mode: 'e', default: true },
        ] }),
        ("XO2_0", Def::Struct { root: ("", "XO2_0"), namespaces: vec![("q", "urn:q"), ("s", "urn:p/")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("i32"), mode: 'a', default: false },
        ] }),
        ("XO2_1", Def::Struct { root: ("", "XO2_1"), namespaces: vec![("p", "urn:p"), ("r", "urn:r:")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'a', default: false },
        ] }),
        ("XO2_2", Def::Struct { root: ("", "XO2_2"), namespaces: vec![("pp", "urn:p"), ("q", "urn:q")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("i32"), mode: 'e', default: false },
        ] }),
        ("XO2_3", Def::Struct { root: ("", "XO2_3"), namespaces: vec![("pp", "urn:p"), ("s", "urn:p/")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
        ] }),
        ("XO2_4", Def::Struct { root: ("", "XO2_4"), namespaces: vec![("r", "urn:r:"), ("t", "URN:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Many(Box::new(Ty::Scalar("i32"))), mode: 'e', default: false },
        ] }),
        ("XO2_5", Def::Struct { root: ("", "XO2_5"), namespaces: vec![("pp", "urn:p"), ("t", "URN:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("i32"), mode: 'a', default: true },
        ] }),
        ("XO2_6", Def::Struct { root: ("", "XO2_6"), namespaces: vec![("p", "urn:p"), ("s", "urn:p/")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("i32"), mode: 'e', default: true },
        ] }),
        ("XO3_0", Def::Struct { root: ("", "XO3_0"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("u64"), mode: 'a', default: false },
        ] }),
        ("XO3_1", Def::Struct { root: ("", "XO3_1"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Scalar("u64"))), mode: 'a', default: false },
        ] }),
        ("XO3_2", Def::Struct { root: ("", "XO3_2"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("u64"), mode: 'e', default: false },
        ] }),
        ("XO3_3", Def::Struct { root: ("", "XO3_3"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Scalar("u64"))), mode: 'e', default: false },
        ] }),
        ("XO3_4", Def::Struct { root: ("", "XO3_4"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Many(Box::new(Ty::Scalar("u64"))), mode: 'e', default: false },
        ] }),
        ("XO3_5", Def::Struct { root: ("", "XO3_5"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("u64"), mode: 'a', default: true },
        ] }),
        ("XO3_6", Def::Struct { root: ("", "XO3_6"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("u64"), mode: 'e', default: true },
        ] }),
        ("XO4_0", Def::Struct { root: ("", "XO4_0"), namespaces: vec![("p", "urn:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("f64"), mode: 'a', default: false },
        ] }),
        ("XO4_1", Def::Struct { root: ("", "XO4_1"), namespaces: vec![("s", "urn:p/")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Scalar("f64"))), mode: 'a', default: false },
        ] }),
        ("XO4_2", Def::Struct { root: ("", "XO4_2"), namespaces: vec![("t", "URN:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("f64"), mode: 'e', default: false },
        ] }),
        ("XO4_3", Def::Struct { root: ("", "XO4_3"), namespaces: vec![("p", "urn:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Scalar("f64"))), mode: 'e', default: false },
        ] }),
        ("XO4_4", Def::Struct { root: ("", "XO4_4"), namespaces: vec![("r", "urn:r:")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Many(Box::new(Ty::Scalar("f64"))), mode: 'e', default: false },
        ] }),
        ("XO4_5", Def::Struct { root: ("", "XO4_5"), namespaces: vec![("q", "urn:q")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("f64"), mode: 'a', default: true },
        ] }),
        ("XO4_6", Def::Struct { root: ("", "XO4_6"), namespaces: vec![("p", "urn:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("f64"), mode: 'e', default: true },
        ] }),
        ("XO5_0", Def::Struct { root: ("", "XO5_0"), namespaces: vec![("p", "urn:p"), ("pp", "urn:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("Tracked"), mode: 'a', default: false },
        ] }),
        ("XO5_1", Def::Struct { root: ("", "XO5_1"), namespaces: vec![("p", "urn:p"), ("pp", "urn:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Scalar("Tracked"))), mode: 'a', default: false },
        ] }),
        ("XO5_2", Def::Struct { root: ("", "XO5_2"), namespaces: vec![("s", "urn:p/"), ("t", "URN:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("Tracked"), mode: 'e', default: false },
        ] }),
        ("XO5_3", Def::Struct { root: ("", "XO5_3"), namespaces: vec![("pp", "urn:p"), ("t", "URN:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Scalar("Tracked"))), mode: 'e', default: false },
        ] }),
        ("XO5_4", Def::Struct { root: ("", "XO5_4"), namespaces: vec![("p", "urn:p"), ("q", "urn:q")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Many(Box::new(Ty::Scalar("Tracked"))), mode: 'e', default: false },
        ] }),
        ("XO5_5", Def::Struct { root: ("", "XO5_5"), namespaces: vec![("p", "urn:p"), ("r", "urn:r:")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("Tracked"), mode: 'a', default: true },
        ] }),
        ("XO5_6", Def::Struct { root: ("", "XO5_6"), namespaces: vec![("pp", "urn:p"), ("q", "urn:q")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Scalar("Tracked"), mode: 'e', default: true },
        ] }),
        ("XO6_0", Def::Struct { root: ("", "XO6_0"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Named("Color"), mode: 'a', default: false },
        ] }),
        ("XO6_1", Def::Struct { root: ("", "XO6_1"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Named("Color"))), mode: 'a', default: false },
        ] }),
        ("XO6_2", Def::Struct { root: ("", "XO6_2"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Named("Color"), mode: 'e', default: false },
        ] }),
        ("XO6_3", Def::Struct { root: ("", "XO6_3"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Named("Color"))), mode: 'e', default: false },
        ] }),
        ("XO6_4", Def::Struct { root: ("", "XO6_4"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Many(Box::new(Ty::Named("Color"))), mode: 'e', default: false },
        ] }),
        ("XO7_0", Def::Struct { root: ("", "XO7_0"), namespaces: vec![("r", "urn:r:")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Named("Size"), mode: 'a', default: false },
        ] }),
        ("XO7_1", Def::Struct { root: ("", "XO7_1"), namespaces: vec![("s", "urn:p/")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Named("Size"))), mode: 'a', default: false },
        ] }),
        ("XO7_2", Def::Struct { root: ("", "XO7_2"), namespaces: vec![("pp", "urn:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Named("Size"), mode: 'e', default: false },
        ] }),
        ("XO7_3", Def::Struct { root: ("", "XO7_3"), namespaces: vec![("r", "urn:r:")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Named("Size"))), mode: 'e', default: false },
        ] }),
        ("XO7_4", Def::Struct { root: ("", "XO7_4"), namespaces: vec![("t", "URN:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Many(Box::new(Ty::Named("Size"))), mode: 'e', default: false },
        ] }),
        ("XO8_0", Def::Struct { root: ("", "XO8_0"), namespaces: vec![("s", "urn:p/"), ("t", "URN:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Named("ColorOrNum"), mode: 'a', default: false },
        ] }),
        ("XO8_1", Def::Struct { root: ("", "XO8_1"), namespaces: vec![("p", "urn:p"), ("q", "urn:q")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Named("ColorOrNum"))), mode: 'a', default: false },
        ] }),
        ("XO8_2", Def::Struct { root: ("", "XO8_2"), namespaces: vec![("p", "urn:p"), ("r", "urn:r:")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Named("ColorOrNum"), mode: 'e', default: false },
        ] }),
        ("XO8_3", Def::Struct { root: ("", "XO8_3"), namespaces: vec![("q", "urn:q"), ("r", "urn:r:")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Named("ColorOrNum"))), mode: 'e', default: false },
        ] }),
        ("XO8_4", Def::Struct { root: ("", "XO8_4"), namespaces: vec![("s", "urn:p/"), ("t", "URN:p")], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Many(Box::new(Ty::Named("ColorOrNum"))), mode: 'e', default: false },
        ] }),
        ("XO9_0", Def::Struct { root: ("", "XO9_0"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Named("Pair"), mode: 'a', default: false },
        ] }),
        ("XO9_1", Def::Struct { root: ("", "XO9_1"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Named("Pair"))), mode: 'a', default: false },
        ] }),
        ("XO9_2", Def::Struct { root: ("", "XO9_2"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Named("Pair"), mode: 'e', default: false },
        ] }),
        ("XO9_3", Def::Struct { root: ("", "XO9_3"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Opt(Box::new(Ty::Named("Pair"))), mode: 'e', default: false },
        ] }),
        ("XO9_4", Def::Struct { root: ("", "XO9_4"), namespaces: vec![], fields: vec![
            Field { ident: "only", name: ("", "only"), ty: Ty::Many(Box::new(Ty::Named("Pair"))), mode: 'e', default: false },
        ] }),
        ("XV0_0", Def::Enum { root: ("", "XV0_0"), namespaces: vec![], variants: vec![
            Variant { ident: "Only", name: ("", "Only"), ty: Some(Ty::Scalar("i32")), skip: false },
        ] }),
        ("XW0_0", Def::Struct { root: ("", "XW0_0"), namespaces: vec![("p", "urn:p"), ("t", "URN:p")], fields: vec![
            Field { ident: "it", name: ("", "it"), ty: Ty::Named("XV0_0"), mode: 'f', default: false },
        ] }),
        ("XV0_1", Def::Enum { root: ("", "XV0_1"), namespaces: vec![("p", "urn:p")], variants: vec![
            Variant { ident: "Only", name: ("", "Only"), ty: Some(Ty::Opt(Box::new(Ty::Scalar("i32")))), skip: false },
        ] }),
        ("XW0_1", Def::Struct { root: ("", "XW0_1"), namespaces: vec![("p", "urn:p"), ("r", "urn:r:"), ("s", "urn:p/")], fields: vec![
            Field { ident: "it", name: ("", "it"), ty: Ty::Named("XV0_1"), mode: 'f', default: false },
        ] }),
        ("XV0_2", Def::Enum { root: ("", "XV0_2"), namespaces: vec![("q", "urn:q"), ("t", "URN:p")], variants: vec![
            Variant { ident: "Only", name: ("", "Only"), ty: Some(Ty::Many(Box::new(Ty::Scalar("i32")))), skip: false },
        ] }),
        ("XW0_2", Def::Struct { root: ("", "XW0_2"), namespaces: vec![("s", "urn:p/"), ("t", "URN:p")], fields: vec![
            Field { ident: "it", name: ("", "it"), ty: Ty::Named("XV0_2"), mode: 'f', default: false },
        ] }),
        ("XV1_0", Def::Enum { root: ("", "XV1_0"), namespaces: vec![], variants: vec![
            Variant { ident: "Only", name: ("", "Only"), ty: Some(Ty::Named("Color")), skip: false },
        ] }),
        ("XW1_0", Def::Struct { root: ("", "XW1_0"), namespaces: vec![("q", "urn:q"), ("r", "urn:r:")], fields: vec![
            Field { ident: "it", name: ("", "it"), ty: Ty::Named("XV1_0"), mode: 'f', default: false },
        ] }),
        ("XV1_1", Def::Enum { root: ("", "XV1_1"), namespaces: vec![("pp", "urn:p")], variants: vec![
            Variant { ident: "Only", name: ("", "Only"), ty: Some(Ty::Opt(Box::new(Ty::Named("Color")))), skip: false },
        ] }),
        ("XW1_1", Def::Struct { root: ("", "XW1_1"), namespaces: vec![("q", "urn:q"), ("r", "urn:r:"), ("s", "urn:p/")], fields: vec![
            Field { ident: "it", name: ("", "it"), ty: Ty::Named("XV1_1"), mode: 'f', default: false },
        ] }),
        ("XV1_2", Def::Enum { root: ("", "XV1_2"), namespaces: vec![("p", "urn:p"), ("t", "URN:p")], variants: vec![
            Variant { ident: "Only", name: ("", "Only"), ty: Some(Ty::Many(Box::new(Ty::Named("Color")))), skip: false },
        ] }),
        ("XW1_2", Def::Struct { root: ("", "XW1_2"), namespaces: vec![("p", "urn:p"), ("q", "urn:q")], fields: vec![
            Field { ident: "it", name: ("", "it"), ty: Ty::Named("XV1_2"), mode: 'f', default: false },
        ] }),
        ("XV2_0", Def::Enum { root: ("", "XV2_0"), namespaces: vec![], variants: vec![
            Variant { ident: "Only", name: ("", "Only"), ty: Some(Ty::Named("Plain")), skip: false },
        ] }),
        ("XW2_0", Def::Struct { root: ("", "XW2_0"), namespaces: vec![("s", "urn:p/"), ("t", "URN:p")], fields: vec![
            Field { ident: "it", name: ("", "it"), ty: Ty::Named("XV2_0"), mode: 'f', default: false },
        ] }),
        ("XV2_1", Def::Enum { root: ("", "XV2_1"), namespaces: vec![("t", "URN:p")], variants: vec![
            Variant { ident: "Only", name: ("", "Only"), ty: Some(Ty::Opt(Box::new(Ty::Named("Plain")))), skip: false },
        ] }),
        ("XW2_1", Def::Struct { root: ("", "XW2_1"), namespaces: vec![("p", "urn:p"), ("pp", "urn:p"), ("r", "urn:r:")], fields: vec![
            Field { ident: "it", name: ("", "it"), ty: Ty::Named("XV2_1"), mode: 'f', default: false },
        ] }),
        ("XV2_2", Def::Enum { root: ("", "XV2_2"), namespaces: vec![("r", "urn:r:"), ("t", "URN:p")], variants: vec![
            Variant { ident: "Only", name: ("", "Only"), ty: Some(Ty::Many(Box::new(Ty::Named("Plain")))), skip: false },
        ] }),
        ("XW2_2", Def::Struct { root: ("", "XW2_2"), namespaces: vec![("p", "urn:p"), ("q", "urn:q")], fields: vec![
            Field { ident: "it", name: ("", "it"), ty: Ty::Named("XV2_2"), mode: 'f', default: false },
        ] }),
        ("XV3_0", Def::Enum { root: ("", "XV3_0"), namespaces: vec![], variants: vec![
            Variant { ident: "Only", name: ("", "Only"), ty: Some(Ty::Named("Empty")), skip: false },
        ] }),
        ("XW3_0", Def::Struct { root: ("", "XW3_0"), namespaces: vec![("pp", "urn:p"), ("t", "URN:p")], fields: vec![
            Field { ident: "it", name: ("", "it"), ty: Ty::Named("XV3_0"), mode: 'f', default: false },
        ] }),
        ("XV3_1", Def::Enum { root: ("", "XV3_1"), namespaces: vec![("p", "urn:p")], variants: vec![
            Variant { ident: "Only", name: ("", "Only"), ty: Some(Ty::Opt(Box::new(Ty::Named("Empty")))), skip: false },
        ] }),
        ("XW3_1", Def::Struct { root: ("", "XW3_1"), namespaces: vec![("p", "urn:p"), ("pp", "urn:p"), ("r", "urn:r:")], fields: vec![
            Field { ident: "it", name: ("", "it"), ty: Ty::Named("XV3_1"), mode: 'f', default: false },
        ] }),
        ("XV3_2", Def::Enum { root: ("", "XV3_2"), namespaces: vec![("s", "urn:p/"), ("t", "URN:p")], variants: vec![
            Variant { ident: "Only", name: ("", "Only"), ty: Some(Ty::Many(Box::new(Ty::Named("Empty")))), skip: false },
        ] }),
        ("XW3_2", Def::Struct { root: ("", "XW3_2"), namespaces: vec![("p", "urn:p"), ("s", "urn:p/")], fields: vec![
            Field { ident: "it", name: ("", "it"), ty: Ty::Named("XV3_2"), mode: 'f', default: false },
        ] }),
        ("XV4_0", Def::Enum { root: ("", "XV4_0"), namespaces: vec![], variants: vec![
            Variant { ident: "Only", name: ("", "Only"), ty: Some(Ty::Named("Single")), skip: false },
        ] }),
        ("XW4_0", Def::Struct { root: ("", "XW4_0"), namespaces: vec![("p", "urn:p"), ("pp", "urn:p")], fields: vec![
            Field { ident: "it", name: ("", "it"), ty: Ty::Named("XV4_0"), mode: 'f', default: false },
        ] }),
        ("XV4_1", Def::Enum { root: ("", "XV4_1"), namespaces: vec![("s", "urn:p/")], variants: vec![
            Variant { ident: "Only", name: ("", "Only"), ty: Some(Ty::Opt(Box::new(Ty::Named("Single")))), skip: false },
        ] }),
        ("XW4_1", Def::Struct { root: ("", "XW4_1"), namespaces: vec![("p", "urn:p"), ("s", "urn:p/"), ("t", "URN:p")], fields: vec![
            Field { ident: "it", name: ("", "it"), ty: Ty::Named("XV4_1"), mode: 'f', default: false },
        ] }),
        ("XV4_2", Def::Enum { root: ("", "XV4_2"), namespaces: vec![("q", "urn:q"), ("s", "urn:p/")], variants: vec![
            Variant { ident: "Only", name: ("", "Only"), ty: Some(Ty::Many(Box::new(Ty::Named("Single")))), skip: false },
        ] }),
        ("XW4_2", Def::Struct { root: ("", "XW4_2"), namespaces: vec![("p", "urn:p"), ("q", "urn:q")], fields: vec![
            Field { ident: "it", name: ("", "it"), ty: Ty::Named("XV4_2"), mode: 'f', default: false },
        ] }),
        ("XV5_0", Def::Enum { root: ("", "XV5_0"), namespaces: vec![], variants: vec![
            Variant { ident: "Only", name: ("", "Only"), ty: None, skip: false },
        ] }),
        ("XW5_0", Def::Struct { root: ("", "XW5_0"), namespaces: vec![("s", "urn:p/"), ("t", "URN:p")], fields: vec![
            Field { ident: "it", name: ("", "it"), ty: Ty::Named("XV5_0"), mode: 'f', default: false },
        ] }),
        ("alpha::XT", Def::Restriction { ws: "preserve", variants: vec![("X", "x"), ("Both", "both"), ("Z", "z z")], unknown: None }),
        ("beta::XT", Def::Restriction { ws: "collapse", variants: vec![("Y", "y"), ("Both", "both"), ("Z2", "z  z")], unknown: None }),
        ("XUSame", Def::Union { ws: "preserve", variants: vec![("A", Ty::Named("alpha::XT")), ("B", Ty::Named("beta::XT")), ("N", Ty::Scalar("i32"))] }),
        ("XUSame2", Def::Union { ws: "collapse", variants: vec![("B", Ty::Named("beta::XT")), ("A", Ty::Named("alpha::XT"))] }),
        ("XSSame", Def::Struct { root: ("", "XSSame"), namespaces: vec![], fields: vec![
            Field { ident: "a", name: ("", "a"), ty: Ty::Named("beta::XT"), mode: 'e', default: false },
            Field { ident: "b", name: ("", "b"), ty: Ty::Opt(Box::new(Ty::Named("alpha::XT"))), mode: 'e', default: false },
            Field { ident: "c", name: ("", "c"), ty: Ty::Named("alpha::XT"), mode: 'a', default: false },
            Field { ident: "d", name: ("", "d"), ty: Ty::Opt(Box::new(Ty::Named("beta::XT"))), mode: 'a', default: false },
        ] }),
    ]
}

pub fn ops() -> Vec<(&'static str, Ops)> {
    vec![
        ("Color", text_ops::<Color>()),
        ("Size", text_ops::<Size>()),
        ("Code", text_ops::<Code>()),
        ("Keep", text_ops::<Keep>()),
        ("Tight", text_ops::<Tight>()),
        ("Vowel", text_ops::<Vowel>()),
        ("Pair", text_ops::<Pair>()),
        ("Word", text_ops::<Word>()),
        ("ColorOrNum", text_ops::<ColorOrNum>()),
        ("Loose", text_ops::<Loose>()),
        ("TwoTexts", text_ops::<TwoTexts>()),
        ("Nested", text_ops::<Nested>()),
        ("Early", text_ops::<Early>()),
        ("Front", text_ops::<Front>()),
        ("Alone", text_ops::<Alone>()),
        ("TwoRest", text_ops::<TwoRest>()),
        ("Ahead", text_ops::<Ahead>()),
        ("Foreign", text_ops::<Foreign>()),
        ("Line", text_ops::<Line>()),
        ("Strings", text_ops::<Strings>()),
        ("Plain", element_ops::<Plain>()),
        ("Empty", element_ops::<Empty>()),
        ("Big", element_ops::<Big>()),
        ("Defaults", element_ops::<Defaults>()),
        ("Spaced", element_ops::<Spaced>()),
        ("Defaulted", element_ops::<Defaulted>()),
        ("Near", element_ops::<Near>()),
        ("Shape", element_ops::<Shape>()),
        ("Tone", element_ops::<Tone>()),
        ("Marked", element_ops::<Marked>()),
        ("Single", element_ops::<Single>()),
        ("Blank", element_ops::<Blank>()),
        ("Mixed", element_ops::<Mixed>()),
        ("Guarded", element_ops::<Guarded>()),
        ("One", element_ops::<One>()),
        ("TwoFlat", element_ops::<TwoFlat>()),
        ("Overlap", element_ops::<Overlap>()),
        ("Bare", element_ops::<Bare>()),
        ("Trio", element_ops::<Trio>()),
        ("Words", element_ops::<Words>()),
        ("Wide", element_ops::<Wide>()),
        ("Guard", element_ops::<Guard>()),
        ("GuardFlat", element_ops::<GuardFlat>()),
        ("Deep", element_ops::<Deep>()),
        ("Tree", element_ops::<Tree>()),
        ("XR0", text_ops::<XR0>()),
        ("XR1", text_ops::<XR1>()),
        ("XR2", text_ops::<XR2>()),
        ("XR3", text_ops::<XR3>()),
        ("XR4", text_ops::<XR4>()),
        ("XR5", text_ops::<XR5>()),
        ("XR6", text_ops::<XR6>()),
        ("XR7", text_ops::<XR7>()),
        ("XR8", text_ops::<XR8>()),
        ("XR9", text_ops::<XR9>()),
        ("XR10", text_ops::<XR10>()),
        ("XR11", text_ops::<XR11>()),
        ("XRWide", text_ops::<XRWide>()),
        ("XU0", text_ops::<XU0>()),
        ("XU1", text_ops::<XU1>()),
        ("XU2", text_ops::<XU2>()),
        ("XU3", text_ops::<XU3>()),
        ("XU4", text_ops::<XU4>()),
        ("XU5", text_ops::<XU5>()),
        ("XU6", text_ops::<XU6>()),
        ("XU7", text_ops::<XU7>()),
        ("XRU0", text_ops::<XRU0>()),
        ("XRU1", text_ops::<XRU1>()),
        ("XRU2", text_ops::<XRU2>()),
        ("XRU3", text_ops::<XRU3>()),
        ("XRU4", text_ops::<XRU4>()),
        ("XRU5", text_ops::<XRU5>()),
        ("XRU6", text_ops::<XRU6>()),
        ("XRU7", text_ops::<XRU7>()),
        ("XRU8", text_ops::<XRU8>()),
        ("XRU9", text_ops::<XRU9>()),
        ("XRU10", text_ops::<XRU10>()),
        ("XRU11", text_ops::<XRU11>()),
        ("XRU12", text_ops::<XRU12>()),
        ("XRU13", text_ops::<XRU13>()),
        ("XRU14", text_ops::<XRU14>()),
        ("XRU15", text_ops::<XRU15>()),
        ("XRU16", text_ops::<XRU16>()),
        ("XRU17", text_ops::<XRU17>()),
        ("XRU18", text_ops::<XRU18>()),
        ("XRU19", text_ops::<XRU19>()),
        ("XRU20", text_ops::<XRU20>()),
        ("XRU21", text_ops::<XRU21>()),
        ("XRU22", text_ops::<XRU22>()),
        ("XRU23", text_ops::<XRU23>()),
        ("XUWide", text_ops::<XUWide>()),
        ("XS0", element_ops::<XS0>()),
        ("XS1", element_ops::<XS1>()),
        ("XE2", element_ops::<XE2>()),
        ("XS3", element_ops::<XS3>()),
        ("XS4", element_ops::<XS4>()),
        ("XE5", element_ops::<XE5>()),
        ("XS6", element_ops::<XS6>()),
        ("XS7", element_ops::<XS7>()),
        ("XE8", element_ops::<XE8>()),
        ("XS9", element_ops::<XS9>()),
        ("XS10", element_ops::<XS10>()),
        ("XE11", element_ops::<XE11>()),
        ("XS12", element_ops::<XS12>()),
        ("XS13", element_ops::<XS13>()),
        ("XE14", element_ops::<XE14>()),
        ("XS15", element_ops::<XS15>()),
        ("XS16", element_ops::<XS16>()),
        ("XE17", element_ops::<XE17>()),
        ("XS18", element_ops::<XS18>()),
        ("XS19", element_ops::<XS19>()),
        ("XE20", element_ops::<XE20>()),
        ("XS21", element_ops::<XS21>()),
        ("XS22", element_ops::<XS22>()),
        ("XE23", element_ops::<XE23>()),
        ("XS24", element_ops::<XS24>()),
        ("XS25", element_ops::<XS25>()),
        ("XE26", element_ops::<XE26>()),
        ("XS27", element_ops::<XS27>()),
        ("XS28", element_ops::<XS28>()),
        ("XE29", element_ops::<XE29>()),
        ("XS30", element_ops::<XS30>()),
        ("XS31", element_ops::<XS31>()),
        ("XE32", element_ops::<XE32>()),
        ("XS33", element_ops::<XS33>()),
        ("XSWide", element_ops::<XSWide>()),
        ("XSHuge", element_ops::<XSHuge>()),
        ("XEHuge", element_ops::<XEHuge>()),
        ("XO0_0", element_ops::<XO0_0>()),
        ("XO0_1", element_ops::<XO0_1>()),
        ("XO0_2", element_ops::<XO0_2>()),
        ("XO0_3", element_ops::<XO0_3>()),
        ("XO0_4", element_ops::<XO0_4>()),
        ("XO0_5", element_ops::<XO0_5>()),
        ("XO0_6", element_ops::<XO0_6>()),
        ("XO1_0", element_ops::<XO1_0>()),
        ("XO1_1", element_ops::<XO1_1>()),
        ("XO1_2", element_ops::<XO1_2>()),
        ("XO1_3", element_ops::<XO1_3>()),
        ("XO1_4", element_ops::<XO1_4>()),
        ("XO1_5", element_ops::<XO1_5>()),
        ("XO1_6", element_ops::<XO1_6>()),
        ("XO2_0", element_ops::<XO2_0>()),
        ("XO2_1", element_ops::<XO2_1>()),
        ("XO2_2", element_ops::<XO2_2>()),
        ("XO2_3", element_ops::<XO2_3>()),
        ("XO2_4", element_ops::<XO2_4>()),
        ("XO2_5", element_ops::<XO2_5>()),
        ("XO2_6", element_ops::<XO2_6>()),
        ("XO3_0", element_ops::<XO3_0>()),
        ("XO3_1", element_ops::<XO3_1>()),
        ("XO3_2", element_ops::<XO3_2>()),
        ("XO3_3", element_ops::<XO3_3>()),
        ("XO3_4", element_ops::<XO3_4>()),
        ("XO3_5", element_ops::<XO3_5>()),
        ("XO3_6", element_ops::<XO3_6>()),
        ("XO4_0", element_ops::<XO4_0>()),
        ("XO4_1", element_ops::<XO4_1>()),
        ("XO4_2", element_ops::<XO4_2>()),
        ("XO4_3", element_ops::<XO4_3>()),
        ("XO4_4", element_ops::<XO4_4>()),
        ("XO4_5", element_ops::<XO4_5>()),
        ("XO4_6", element_ops::<XO4_6>()),
        ("XO5_0", element_ops::<XO5_0>()),
        ("XO5_1", element_ops::<XO5_1>()),
        ("XO5_2", element_ops::<XO5_2>()),
        ("XO5_3", element_ops::<XO5_3>()),
        ("XO5_4", element_ops::<XO5_4>()),
        ("XO5_5", element_ops::<XO5_5>()),
        ("XO5_6", element_ops::<XO5_6>()),
        ("XO6_0", element_ops::<XO6_0>()),
        ("XO6_1", element_ops::<XO6_1>()),
        ("XO6_2", element_ops::<XO6_2>()),
        ("XO6_3", element_ops::<XO6_3>()),
        ("XO6_4", element_ops::<XO6_4>()),
        ("XO7_0", element_ops::<XO7_0>()),
        ("XO7_1", element_ops::<XO7_1>()),
        ("XO7_2", element_ops::<XO7_2>()),
        ("XO7_3", element_ops::<XO7_3>()),
        ("XO7_4", element_ops::<XO7_4>()),
        ("XO8_0", element_ops::<XO8_0>()),
        ("XO8_1", element_ops::<XO8_1>()),
        ("XO8_2", element_ops::<XO8_2>()),
        ("XO8_3", element_ops::<XO8_3>()),
        ("XO8_4", element_ops::<XO8_4>()),
        ("XO9_0", element_ops::<XO9_0>()),
        ("XO9_1", element_ops::<XO9_1>()),
        ("XO9_2", element_ops::<XO9_2>()),
        ("XO9_3", element_ops::<XO9_3>()),
        ("XO9_4", element_ops::<XO9_4>()),
        ("XV0_0", element_ops::<XV0_0>()),
        ("XW0_0", element_ops::<XW0_0>()),
        ("XV0_1", element_ops::<XV0_1>()),
        ("XW0_1", element_ops::<XW0_1>()),
        ("XV0_2", element_ops::<XV0_2>()),
        ("XW0_2", element_ops::<XW0_2>()),
        ("XV1_0", element_ops::<XV1_0>()),
        ("XW1_0", element_ops::<XW1_0>()),
        ("XV1_1", element_ops::<XV1_1>()),
        ("XW1_1", element_ops::<XW1_1>()),
        ("XV1_2", element_ops::<XV1_2>()),
        ("XW1_2", element_ops::<XW1_2>()),
        ("XV2_0", element_ops::<XV2_0>()),
        ("XW2_0", element_ops::<XW2_0>()),
        ("XV2_1", element_ops::<XV2_1>()),
        ("XW2_1", element_ops::<XW2_1>()),
        ("XV2_2", element_ops::<XV2_2>()),
        ("XW2_2", element_ops::<XW2_2>()),
        ("XV3_0", element_ops::<XV3_0>()),
        ("XW3_0", element_ops::<XW3_0>()),
        ("XV3_1", element_ops::<XV3_1>()),
        ("XW3_1", element_ops::<XW3_1>()),
        ("XV3_2", element_ops::<XV3_2>()),
        ("XW3_2", element_ops::<XW3_2>()),
        ("XV4_0", element_ops::<XV4_0>()),
        ("XW4_0", element_ops::<XW4_0>()),
        ("XV4_1", element_ops::<XV4_1>()),
        ("XW4_1", element_ops::<XW4_1>()),
        ("XV4_2", element_ops::<XV4_2>()),
        ("XW4_2", element_ops::<XW4_2>()),
        ("XV5_0", element_ops::<XV5_0>()),
        ("XW5_0", element_ops::<XW5_0>()),
        ("alpha::XT", text_ops::<alpha::XT>()),
        ("beta::XT", text_ops::<beta::XT>()),
        ("XUSame", text_ops::<XUSame>()),
        ("XUSame2", text_ops::<XUSame2>()),
        ("XSSame", element_ops::<XSSame>()),
    ]
}
