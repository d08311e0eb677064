// Written by tools/corpus.py: declarations for the bounded search only.
#![allow(dead_code)]
use corpus::*;
use static_xml_derive::{Deserialize, ParseText, Serialize, ToText};

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum XR0 {
    #[static_xml(rename = "a\tb")]
    V0,
    #[static_xml(rename = "zz")]
    V1,
    #[static_xml(rename = "日本 語")]
    V2,
    #[static_xml(rename = "&<>\"'")]
    V3,
    #[static_xml(rename = "é")]
    V4,
    #[static_xml(unknown)]
    Unknown(String),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum XR1 {
    V0,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum XR2 {
    #[static_xml(unknown)]
    Unknown(String),
    V0,
    #[static_xml(rename = "a  b")]
    V1,
    #[static_xml(rename = "]]>")]
    V2,
    #[static_xml(rename = "")]
    V3,
    #[static_xml(rename = "日本 語")]
    V4,
    #[static_xml(rename = "X")]
    V5,
    #[static_xml(rename = "x")]
    V6,
    #[static_xml(rename = "a\tb")]
    V7,
    #[static_xml(rename = "é")]
    V8,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "replace")]
pub enum XR3 {
    #[static_xml(rename = "X")]
    V0,
    #[static_xml(rename = "none")]
    V1,
    #[static_xml(rename = "true")]
    V2,
    #[static_xml(rename = "1")]
    V3,
    #[static_xml(rename = " ")]
    V4,
    #[static_xml(rename = "日本 語")]
    V5,
    #[static_xml(rename = "0")]
    V6,
    #[static_xml(rename = "")]
    V7,
    V8,
    #[static_xml(unknown)]
    Unknown(String),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum XR4 {
    #[static_xml(rename = "minus sign")]
    V0,
    #[static_xml(rename = "X")]
    V1,
    #[static_xml(rename = "&<>\"'")]
    V2,
    #[static_xml(rename = "r#x")]
    V3,
    V4,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum XR5 {
    #[static_xml(rename = " ")]
    V0,
    #[static_xml(rename = "none")]
    V1,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum XR6 {
    #[static_xml(rename = "é")]
    V0,
    #[static_xml(rename = "zz")]
    V1,
    #[static_xml(rename = "日本 語")]
    V2,
    V3,
    V4,
    #[static_xml(rename = "minus sign")]
    V5,
    V6,
    #[static_xml(rename = " x")]
    V7,
    #[static_xml(rename = "a\tb")]
    V8,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum XR7 {
    #[static_xml(rename = " x")]
    V0,
    #[static_xml(rename = "x")]
    V1,
    #[static_xml(rename = "a b")]
    V2,
    #[static_xml(rename = "é")]
    V3,
    #[static_xml(rename = "zz")]
    V4,
    #[static_xml(rename = "true")]
    V5,
    #[static_xml(rename = "")]
    V6,
    #[static_xml(rename = "1")]
    V7,
    #[static_xml(rename = "0")]
    V8,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "replace")]
pub enum XR8 {
    V0,
    #[static_xml(rename = "r#x")]
    V1,
    #[static_xml(rename = "a b")]
    V2,
    #[static_xml(rename = "0")]
    V3,
    V4,
    #[static_xml(unknown)]
    Unknown(String),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum XR9 {
    #[static_xml(rename = "X")]
    V0,
    #[static_xml(rename = "minus sign")]
    V1,
    #[static_xml(rename = "x")]
    V2,
    V3,
    #[static_xml(rename = "r#x")]
    V4,
    #[static_xml(rename = "x y z")]
    V5,
    V6,
    V7,
    #[static_xml(rename = " ")]
    V8,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum XR10 {
    #[static_xml(rename = "]]>")]
    V0,
    #[static_xml(rename = "X")]
    V1,
    #[static_xml(rename = "true")]
    V2,
    #[static_xml(rename = "é")]
    V3,
    #[static_xml(rename = "r#x")]
    V4,
    #[static_xml(rename = "")]
    V5,
    #[static_xml(rename = "none")]
    V6,
    V7,
    V8,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum XR11 {
    #[static_xml(rename = "&<>\"'")]
    V0,
    #[static_xml(rename = "a b")]
    V1,
    #[static_xml(rename = "b")]
    V2,
    #[static_xml(rename = "x")]
    V3,
    #[static_xml(rename = "")]
    V4,
    V5,
    #[static_xml(rename = "-1")]
    V6,
    #[static_xml(rename = "0")]
    V7,
    #[static_xml(rename = "r#x")]
    V8,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum XRWide {
    #[static_xml(rename = "t0")]
    V0,
    #[static_xml(rename = "t856")]
    V1,
    #[static_xml(rename = "t703")]
    V2,
    #[static_xml(rename = "t550")]
    V3,
    #[static_xml(rename = "t397")]
    V4,
    #[static_xml(rename = "t244")]
    V5,
    #[static_xml(rename = "t91")]
    V6,
    #[static_xml(rename = "t947")]
    V7,
    #[static_xml(rename = "t794")]
    V8,
    #[static_xml(rename = "t641")]
    V9,
    #[static_xml(rename = "t488")]
    V10,
    #[static_xml(rename = "t335")]
    V11,
    #[static_xml(rename = "t182")]
    V12,
    #[static_xml(rename = "t29")]
    V13,
    #[static_xml(rename = "t885")]
    V14,
    #[static_xml(rename = "t732")]
    V15,
    #[static_xml(rename = "t579")]
    V16,
    #[static_xml(rename = "t426")]
    V17,
    #[static_xml(rename = "t273")]
    V18,
    #[static_xml(rename = "t120")]
    V19,
    #[static_xml(rename = "t976")]
    V20,
    #[static_xml(rename = "t823")]
    V21,
    #[static_xml(rename = "t670")]
    V22,
    #[static_xml(rename = "t517")]
    V23,
    #[static_xml(rename = "t364")]
    V24,
    #[static_xml(rename = "t211")]
    V25,
    #[static_xml(rename = "t58")]
    V26,
    #[static_xml(rename = "t914")]
    V27,
    #[static_xml(rename = "t761")]
    V28,
    #[static_xml(rename = "t608")]
    V29,
    #[static_xml(rename = "t455")]
    V30,
    #[static_xml(rename = "t302")]
    V31,
    #[static_xml(rename = "t149")]
    V32,
    #[static_xml(rename = "t1005")]
    V33,
    #[static_xml(rename = "t852")]
    V34,
    #[static_xml(rename = "t699")]
    V35,
    #[static_xml(rename = "t546")]
    V36,
    #[static_xml(rename = "t393")]
    V37,
    #[static_xml(rename = "t240")]
    V38,
    #[static_xml(rename = "t87")]
    V39,
    #[static_xml(rename = "t943")]
    V40,
    #[static_xml(rename = "t790")]
    V41,
    #[static_xml(rename = "t637")]
    V42,
    #[static_xml(rename = "t484")]
    V43,
    #[static_xml(rename = "t331")]
    V44,
    #[static_xml(rename = "t178")]
    V45,
    #[static_xml(rename = "t25")]
    V46,
    #[static_xml(rename = "t881")]
    V47,
    #[static_xml(rename = "t728")]
    V48,
    #[static_xml(rename = "t575")]
    V49,
    #[static_xml(rename = "t422")]
    V50,
    #[static_xml(rename = "t269")]
    V51,
    #[static_xml(rename = "t116")]
    V52,
    #[static_xml(rename = "t972")]
    V53,
    #[static_xml(rename = "t819")]
    V54,
    #[static_xml(rename = "t666")]
    V55,
    #[static_xml(rename = "t513")]
    V56,
    #[static_xml(rename = "t360")]
    V57,
    #[static_xml(rename = "t207")]
    V58,
    #[static_xml(rename = "t54")]
    V59,
    #[static_xml(rename = "t910")]
    V60,
    #[static_xml(rename = "t757")]
    V61,
    #[static_xml(rename = "t604")]
    V62,
    #[static_xml(rename = "t451")]
    V63,
    #[static_xml(rename = "t298")]
    V64,
    #[static_xml(rename = "t145")]
    V65,
    #[static_xml(rename = "t1001")]
    V66,
    #[static_xml(rename = "t848")]
    V67,
    #[static_xml(rename = "t695")]
    V68,
    #[static_xml(rename = "t542")]
    V69,
    #[static_xml(rename = "t389")]
    V70,
    #[static_xml(rename = "t236")]
    V71,
    #[static_xml(rename = "t83")]
    V72,
    #[static_xml(rename = "t939")]
    V73,
    #[static_xml(rename = "t786")]
    V74,
    #[static_xml(rename = "t633")]
    V75,
    #[static_xml(rename = "t480")]
    V76,
    #[static_xml(rename = "t327")]
    V77,
    #[static_xml(rename = "t174")]
    V78,
    #[static_xml(rename = "t21")]
    V79,
    #[static_xml(rename = "t877")]
    V80,
    #[static_xml(rename = "t724")]
    V81,
    #[static_xml(rename = "t571")]
    V82,
    #[static_xml(rename = "t418")]
    V83,
    #[static_xml(rename = "t265")]
    V84,
    #[static_xml(rename = "t112")]
    V85,
    #[static_xml(rename = "t968")]
    V86,
    #[static_xml(rename = "t815")]
    V87,
    #[static_xml(rename = "t662")]
    V88,
    #[static_xml(rename = "t509")]
    V89,
    #[static_xml(rename = "t356")]
    V90,
    #[static_xml(rename = "t203")]
    V91,
    #[static_xml(rename = "t50")]
    V92,
    #[static_xml(rename = "t906")]
    V93,
    #[static_xml(rename = "t753")]
    V94,
    #[static_xml(rename = "t600")]
    V95,
    #[static_xml(rename = "t447")]
    V96,
    #[static_xml(rename = "t294")]
    V97,
    #[static_xml(rename = "t141")]
    V98,
    #[static_xml(rename = "t997")]
    V99,
    #[static_xml(rename = "t844")]
    V100,
    #[static_xml(rename = "t691")]
    V101,
    #[static_xml(rename = "t538")]
    V102,
    #[static_xml(rename = "t385")]
    V103,
    #[static_xml(rename = "t232")]
    V104,
    #[static_xml(rename = "t79")]
    V105,
    #[static_xml(rename = "t935")]
    V106,
    #[static_xml(rename = "t782")]
    V107,
    #[static_xml(rename = "t629")]
    V108,
    #[static_xml(rename = "t476")]
    V109,
    #[static_xml(rename = "t323")]
    V110,
    #[static_xml(rename = "t170")]
    V111,
    #[static_xml(rename = "t17")]
    V112,
    #[static_xml(rename = "t873")]
    V113,
    #[static_xml(rename = "t720")]
    V114,
    #[static_xml(rename = "t567")]
    V115,
    #[static_xml(rename = "t414")]
    V116,
    #[static_xml(rename = "t261")]
    V117,
    #[static_xml(rename = "t108")]
    V118,
    #[static_xml(rename = "t964")]
    V119,
    #[static_xml(rename = "t811")]
    V120,
    #[static_xml(rename = "t658")]
    V121,
    #[static_xml(rename = "t505")]
    V122,
    #[static_xml(rename = "t352")]
    V123,
    #[static_xml(rename = "t199")]
    V124,
    #[static_xml(rename = "t46")]
    V125,
    #[static_xml(rename = "t902")]
    V126,
    #[static_xml(rename = "t749")]
    V127,
    #[static_xml(rename = "t596")]
    V128,
    #[static_xml(rename = "t443")]
    V129,
    #[static_xml(rename = "t290")]
    V130,
    #[static_xml(rename = "t137")]
    V131,
    #[static_xml(rename = "t993")]
    V132,
    #[static_xml(rename = "t840")]
    V133,
    #[static_xml(rename = "t687")]
    V134,
    #[static_xml(rename = "t534")]
    V135,
    #[static_xml(rename = "t381")]
    V136,
    #[static_xml(rename = "t228")]
    V137,
    #[static_xml(rename = "t75")]
    V138,
    #[static_xml(rename = "t931")]
    V139,
    #[static_xml(rename = "t778")]
    V140,
    #[static_xml(rename = "t625")]
    V141,
    #[static_xml(rename = "t472")]
    V142,
    #[static_xml(rename = "t319")]
    V143,
    #[static_xml(rename = "t166")]
    V144,
    #[static_xml(rename = "t13")]
    V145,
    #[static_xml(rename = "t869")]
    V146,
    #[static_xml(rename = "t716")]
    V147,
    #[static_xml(rename = "t563")]
    V148,
    #[static_xml(rename = "t410")]
    V149,
    #[static_xml(rename = "t257")]
    V150,
    #[static_xml(rename = "t104")]
    V151,
    #[static_xml(rename = "t960")]
    V152,
    #[static_xml(rename = "t807")]
    V153,
    #[static_xml(rename = "t654")]
    V154,
    #[static_xml(rename = "t501")]
    V155,
    #[static_xml(rename = "t348")]
    V156,
    #[static_xml(rename = "t195")]
    V157,
    #[static_xml(rename = "t42")]
    V158,
    #[static_xml(rename = "t898")]
    V159,
    #[static_xml(rename = "t745")]
    V160,
    #[static_xml(rename = "t592")]
    V161,
    #[static_xml(rename = "t439")]
    V162,
    #[static_xml(rename = "t286")]
    V163,
    #[static_xml(rename = "t133")]
    V164,
    #[static_xml(rename = "t989")]
    V165,
    #[static_xml(rename = "t836")]
    V166,
    #[static_xml(rename = "t683")]
    V167,
    #[static_xml(rename = "t530")]
    V168,
    #[static_xml(rename = "t377")]
    V169,
    #[static_xml(rename = "t224")]
    V170,
    #[static_xml(rename = "t71")]
    V171,
    #[static_xml(rename = "t927")]
    V172,
    #[static_xml(rename = "t774")]
    V173,
    #[static_xml(rename = "t621")]
    V174,
    #[static_xml(rename = "t468")]
    V175,
    #[static_xml(rename = "t315")]
    V176,
    #[static_xml(rename = "t162")]
    V177,
    #[static_xml(rename = "t9")]
    V178,
    #[static_xml(rename = "t865")]
    V179,
    #[static_xml(rename = "t712")]
    V180,
    #[static_xml(rename = "t559")]
    V181,
    #[static_xml(rename = "t406")]
    V182,
    #[static_xml(rename = "t253")]
    V183,
    #[static_xml(rename = "t100")]
    V184,
    #[static_xml(rename = "t956")]
    V185,
    #[static_xml(rename = "t803")]
    V186,
    #[static_xml(rename = "t650")]
    V187,
    #[static_xml(rename = "t497")]
    V188,
    #[static_xml(rename = "t344")]
    V189,
    #[static_xml(rename = "t191")]
    V190,
    #[static_xml(rename = "t38")]
    V191,
    #[static_xml(rename = "t894")]
    V192,
    #[static_xml(rename = "t741")]
    V193,
    #[static_xml(rename = "t588")]
    V194,
    #[static_xml(rename = "t435")]
    V195,
    #[static_xml(rename = "t282")]
    V196,
    #[static_xml(rename = "t129")]
    V197,
    #[static_xml(rename = "t985")]
    V198,
    #[static_xml(rename = "t832")]
    V199,
    #[static_xml(rename = "t679")]
    V200,
    #[static_xml(rename = "t526")]
    V201,
    #[static_xml(rename = "t373")]
    V202,
    #[static_xml(rename = "t220")]
    V203,
    #[static_xml(rename = "t67")]
    V204,
    #[static_xml(rename = "t923")]
    V205,
    #[static_xml(rename = "t770")]
    V206,
    #[static_xml(rename = "t617")]
    V207,
    #[static_xml(rename = "t464")]
    V208,
    #[static_xml(rename = "t311")]
    V209,
    #[static_xml(rename = "t158")]
    V210,
    #[static_xml(rename = "t5")]
    V211,
    #[static_xml(rename = "t861")]
    V212,
    #[static_xml(rename = "t708")]
    V213,
    #[static_xml(rename = "t555")]
    V214,
    #[static_xml(rename = "t402")]
    V215,
    #[static_xml(rename = "t249")]
    V216,
    #[static_xml(rename = "t96")]
    V217,
    #[static_xml(rename = "t952")]
    V218,
    #[static_xml(rename = "t799")]
    V219,
    #[static_xml(rename = "t646")]
    V220,
    #[static_xml(rename = "t493")]
    V221,
    #[static_xml(rename = "t340")]
    V222,
    #[static_xml(rename = "t187")]
    V223,
    #[static_xml(rename = "t34")]
    V224,
    #[static_xml(rename = "t890")]
    V225,
    #[static_xml(rename = "t737")]
    V226,
    #[static_xml(rename = "t584")]
    V227,
    #[static_xml(rename = "t431")]
    V228,
    #[static_xml(rename = "t278")]
    V229,
    #[static_xml(rename = "t125")]
    V230,
    #[static_xml(rename = "t981")]
    V231,
    #[static_xml(rename = "t828")]
    V232,
    #[static_xml(rename = "t675")]
    V233,
    #[static_xml(rename = "t522")]
    V234,
    #[static_xml(rename = "t369")]
    V235,
    #[static_xml(rename = "t216")]
    V236,
    #[static_xml(rename = "t63")]
    V237,
    #[static_xml(rename = "t919")]
    V238,
    #[static_xml(rename = "t766")]
    V239,
    #[static_xml(rename = "t613")]
    V240,
    #[static_xml(rename = "t460")]
    V241,
    #[static_xml(rename = "t307")]
    V242,
    #[static_xml(rename = "t154")]
    V243,
    #[static_xml(rename = "t1")]
    V244,
    #[static_xml(rename = "t857")]
    V245,
    #[static_xml(rename = "t704")]
    V246,
    #[static_xml(rename = "t551")]
    V247,
    #[static_xml(rename = "t398")]
    V248,
    #[static_xml(rename = "t245")]
    V249,
    #[static_xml(rename = "t92")]
    V250,
    #[static_xml(rename = "t948")]
    V251,
    #[static_xml(rename = "t795")]
    V252,
    #[static_xml(rename = "t642")]
    V253,
    #[static_xml(rename = "t489")]
    V254,
    #[static_xml(rename = "t336")]
    V255,
    #[static_xml(rename = "t183")]
    V256,
    #[static_xml(rename = "t30")]
    V257,
    #[static_xml(rename = "t886")]
    V258,
    #[static_xml(rename = "t733")]
    V259,
    #[static_xml(rename = "t580")]
    V260,
    #[static_xml(rename = "t427")]
    V261,
    #[static_xml(rename = "t274")]
    V262,
    #[static_xml(rename = "t121")]
    V263,
    #[static_xml(rename = "t977")]
    V264,
    #[static_xml(rename = "t824")]
    V265,
    #[static_xml(rename = "t671")]
    V266,
    #[static_xml(rename = "t518")]
    V267,
    #[static_xml(rename = "t365")]
    V268,
    #[static_xml(rename = "t212")]
    V269,
    #[static_xml(unknown)]
    Rest(String),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union")]
pub enum XU0 {
    V0(XR8),
    V1(XR9),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "collapse")]
pub enum XU1 {
    V0(XR0),
    V1(XR11),
    V2(Color),
    V3(XU0),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "collapse")]
pub enum XU2 {
    V0(i32),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union")]
pub enum XU3 {
    V0(XR10),
    V1(String),
    V2(Color),
    V3(bool),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "collapse")]
pub enum XU4 {
    V0(XR0),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "replace")]
pub enum XU5 {
    V0(XR6),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "collapse")]
pub enum XU6 {
    V0(XR10),
    V1(i32),
    V2(bool),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union")]
pub enum XU7 {
    V0(XRWide),
    V1(XRWide),
    V2(f64),
    V3(XU2),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum XRU0 {
    #[static_xml(rename = "u0")]
    A,
    #[static_xml(rename = "u1")]
    B,
    #[static_xml(rename = "u 0")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum XRU1 {
    #[static_xml(rename = "u1")]
    A,
    #[static_xml(rename = "u2")]
    B,
    #[static_xml(rename = "u 1")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum XRU2 {
    #[static_xml(rename = "u2")]
    A,
    #[static_xml(rename = "u3")]
    B,
    #[static_xml(rename = "u 2")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum XRU3 {
    #[static_xml(rename = "u3")]
    A,
    #[static_xml(rename = "u4")]
    B,
    #[static_xml(rename = "u 3")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum XRU4 {
    #[static_xml(rename = "u4")]
    A,
    #[static_xml(rename = "u5")]
    B,
    #[static_xml(rename = "u 4")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum XRU5 {
    #[static_xml(rename = "u5")]
    A,
    #[static_xml(rename = "u6")]
    B,
    #[static_xml(rename = "u 5")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum XRU6 {
    #[static_xml(rename = "u6")]
    A,
    #[static_xml(rename = "u7")]
    B,
    #[static_xml(rename = "u 6")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum XRU7 {
    #[static_xml(rename = "u7")]
    A,
    #[static_xml(rename = "u8")]
    B,
    #[static_xml(rename = "u 7")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum XRU8 {
    #[static_xml(rename = "u8")]
    A,
    #[static_xml(rename = "u9")]
    B,
    #[static_xml(rename = "u 8")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum XRU9 {
    #[static_xml(rename = "u9")]
    A,
    #[static_xml(rename = "u10")]
    B,
    #[static_xml(rename = "u 9")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum XRU10 {
    #[static_xml(rename = "u10")]
    A,
    #[static_xml(rename = "u11")]
    B,
    #[static_xml(rename = "u 10")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum XRU11 {
    #[static_xml(rename = "u11")]
    A,
    #[static_xml(rename = "u12")]
    B,
    #[static_xml(rename = "u 11")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum XRU12 {
    #[static_xml(rename = "u12")]
    A,
    #[static_xml(rename = "u13")]
    B,
    #[static_xml(rename = "u 12")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum XRU13 {
    #[static_xml(rename = "u13")]
    A,
    #[static_xml(rename = "u14")]
    B,
    #[static_xml(rename = "u 13")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum XRU14 {
    #[static_xml(rename = "u14")]
    A,
    #[static_xml(rename = "u15")]
    B,
    #[static_xml(rename = "u 14")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum XRU15 {
    #[static_xml(rename = "u15")]
    A,
    #[static_xml(rename = "u16")]
    B,
    #[static_xml(rename = "u 15")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum XRU16 {
    #[static_xml(rename = "u16")]
    A,
    #[static_xml(rename = "u17")]
    B,
    #[static_xml(rename = "u 16")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum XRU17 {
    #[static_xml(rename = "u17")]
    A,
    #[static_xml(rename = "u18")]
    B,
    #[static_xml(rename = "u 17")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum XRU18 {
    #[static_xml(rename = "u18")]
    A,
    #[static_xml(rename = "u19")]
    B,
    #[static_xml(rename = "u 18")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum XRU19 {
    #[static_xml(rename = "u19")]
    A,
    #[static_xml(rename = "u20")]
    B,
    #[static_xml(rename = "u 19")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum XRU20 {
    #[static_xml(rename = "u20")]
    A,
    #[static_xml(rename = "u21")]
    B,
    #[static_xml(rename = "u 20")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum XRU21 {
    #[static_xml(rename = "u21")]
    A,
    #[static_xml(rename = "u22")]
    B,
    #[static_xml(rename = "u 21")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction")]
pub enum XRU22 {
    #[static_xml(rename = "u22")]
    A,
    #[static_xml(rename = "u23")]
    B,
    #[static_xml(rename = "u 22")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum XRU23 {
    #[static_xml(rename = "u23")]
    A,
    #[static_xml(rename = "u24")]
    B,
    #[static_xml(rename = "u 23")]
    C,
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "collapse")]
pub enum XUWide {
    V0(XRU0),
    V1(XRU1),
    V2(XRU2),
    V3(XRU3),
    V4(XRU4),
    V5(XRU5),
    V6(XRU6),
    V7(XRU7),
    V8(XRU8),
    V9(XRU9),
    V10(XRU10),
    V11(XRU11),
    V12(XRU12),
    V13(XRU13),
    V14(XRU14),
    V15(XRU15),
    V16(XRU16),
    V17(XRU17),
    V18(XRU18),
    V19(XRU19),
    V20(XRU20),
    V21(XRU21),
    V22(XRU22),
    V23(XRU23),
    Num(i32),
    Last(Word),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(prefix = "s", rename = "a", namespace = "s: urn:p/")]
pub struct XS0 {
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(rename = "b", namespace = "t: URN:p", namespace = "r: urn:r:", namespace = "pp: urn:p")]
pub struct XS1 {
    #[static_xml(attribute, rename = "name")]
    pub lang: Option<XR2>,
    #[static_xml(rename = "name", prefix = "pp")]
    pub x2: XU6,
    #[static_xml(default, rename = "B", prefix = "t")]
    pub z: Option<f64>,
    pub value: Vec<XS0>,
    #[static_xml(flatten)]
    pub a: Shape,
    #[static_xml(prefix = "pp")]
    pub ab: Option<i32>,
    #[static_xml(flatten)]
    pub b: Shape,
    #[static_xml(prefix = "r")]
    pub id: XR7,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(prefix = "p", namespace = "p: urn:p")]
pub enum XE2 {
    #[static_xml(prefix = "p")]
    V0(i32),
    #[static_xml(rename = "x")]
    V1(Vec<XR2>),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XS3 {
    #[static_xml(rename = "a")]
    pub _v: Vec<XS1>,
    #[static_xml(attribute)]
    pub ab: XU1,
    pub c: Option<XRWide>,
    #[static_xml(default, rename = "x2")]
    pub r#type: Option<XU5>,
    #[static_xml(flatten)]
    pub a: Shape,
    #[static_xml(rename = "UPPER.case")]
    pub x: Vec<XR0>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(prefix = "p", rename = "n", namespace = "s: urn:p/", namespace = "p: urn:p")]
pub struct XS4 {
    #[static_xml(flatten)]
    pub a: Shape,
    pub present: Option<XR2>,
    #[static_xml(flatten)]
    pub b: Shape,
    pub x10: Vec<XR4>,
    #[static_xml(rename = "ab")]
    pub zz_top: XS0,
    #[static_xml(attribute)]
    pub r#in: Option<Pair>,
    pub out: Option<XE2>,
    #[static_xml(attribute, default, rename = "o", prefix = "xml")]
    pub lang: f64,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub enum XE5 {
    V3(XR4),
    V2(XR0),
    V0(Vec<XE2>),
    #[static_xml(rename = "x10")]
    V1(XS3),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(rename = "Z")]
pub struct XS6 {
    #[static_xml(rename = "x10")]
    pub z: XS0,
    #[static_xml(flatten)]
    pub a: Shape,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "p: urn:p")]
pub struct XS7 {
    #[static_xml(default, prefix = "p")]
    pub visitor: Option<XS4>,
    #[static_xml(flatten)]
    pub a: XE5,
    #[static_xml(prefix = "p")]
    pub out: XR3,
    #[static_xml(prefix = "p")]
    pub x: f64,
    #[static_xml(prefix = "")]
    pub Upper: XE5,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(rename = "z", namespace = "q: urn:q", namespace = "s: urn:p/")]
pub enum XE8 {
    #[static_xml(prefix = "q")]
    V0(XU4),
    #[static_xml(skip, prefix = "q")]
    V1(Vec<XR2>),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XS9 {
    #[static_xml(default)]
    pub x10: Option<XU0>,
    #[static_xml(prefix = "")]
    pub r#fn: Option<XR9>,
    pub x1: XE2,
    #[static_xml(default, rename = "b")]
    pub a: Vec<XR8>,
    #[static_xml(attribute, rename = "かな")]
    pub zz_top: Option<XR9>,
    pub r#use: XU7,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(rename = "ab")]
pub struct XS10 {
    pub zz_top: XS6,
    #[static_xml(rename = "_u")]
    pub present: Vec<XR10>,
    pub r#use: String,
    #[static_xml(rename = "UPPER.case")]
    pub z: Option<u64>,
    #[static_xml(rename = "o")]
    pub out: XE5,
    pub x: XE2,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(prefix = "s", namespace = "s: urn:p/")]
pub enum XE11 {
    #[static_xml(rename = "B")]
    V0(Vec<XS10>),
    V1(XR0),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "s: urn:p/")]
pub struct XS12 {
    pub r#use: XS6,
    #[static_xml(default, prefix = "s")]
    pub x10: Option<String>,
    #[static_xml(attribute, default, rename = "かな", prefix = "s")]
    pub ab: Option<XUWide>,
    #[static_xml(attribute, prefix = "s")]
    pub r#in: Option<Color>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(rename = "B")]
pub struct XS13 {
    pub r#type: Vec<XU7>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(rename = "n", namespace = "pp: urn:p", namespace = "t: URN:p", namespace = "q: urn:q")]
pub enum XE14 {
    #[static_xml(prefix = "t")]
    V0,
    #[static_xml(rename = "b", prefix = "t")]
    V3(Vec<XR9>),
    V1(String),
    #[static_xml(prefix = "q")]
    V2(XR1),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XS15 {
    #[static_xml(rename = "name")]
    pub lang: XU3,
    #[static_xml(rename = "Z")]
    pub out: XR3,
    #[static_xml(rename = "ab")]
    pub a: Option<XS13>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "s: urn:p/", namespace = "pp: urn:p", namespace = "p: urn:p")]
pub struct XS16 {
    #[static_xml(rename = "b")]
    pub c: Option<XS10>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(prefix = "s", rename = "b", namespace = "s: urn:p/", namespace = "pp: urn:p")]
pub enum XE17 {
    #[static_xml(prefix = "s")]
    V3(Vec<XU3>),
    V1(XU3),
    #[static_xml(rename = "p")]
    V0(XS13),
    V2(XU5),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XS18 {
    #[static_xml(flatten)]
    pub a: XE8,
    #[static_xml(attribute)]
    pub r#type: Color,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(prefix = "r", namespace = "s: urn:p/", namespace = "q: urn:q", namespace = "r: urn:r:")]
pub struct XS19 {
    #[static_xml(attribute)]
    pub id: Option<XU5>,
    pub visitor: XS16,
    #[static_xml(attribute)]
    pub x10: Option<XR8>,
    #[static_xml(attribute)]
    pub value: Option<Pair>,
    #[static_xml(flatten)]
    pub a: XE2,
    #[static_xml(default, prefix = "r")]
    pub x2: Option<XR0>,
    #[static_xml(rename = "B")]
    pub name: XR9,
    #[static_xml(attribute, default, rename = "p", prefix = "s")]
    pub r#use: Option<XUWide>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(prefix = "r", rename = "m", namespace = "s: urn:p/", namespace = "r: urn:r:")]
pub enum XE20 {
    #[static_xml(rename = "x1", prefix = "r")]
    V0(Option<f64>),
    #[static_xml(skip, prefix = "r")]
    V1(Vec<Pair>),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(rename = "x1", namespace = "p: urn:p", namespace = "q: urn:q")]
pub struct XS21 {
    #[static_xml(default, rename = "x1")]
    pub x: Vec<XU0>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(prefix = "pp", rename = "x2", namespace = "pp: urn:p")]
pub struct XS22 {
    #[static_xml(default, prefix = "pp")]
    pub zz_top: Tracked,
    #[static_xml(default, prefix = "pp")]
    pub r#fn: Vec<i32>,
    #[static_xml(attribute, rename = "b", prefix = "pp")]
    pub b: Option<XR2>,
    #[static_xml(attribute, default, rename = "B")]
    pub r#use: Option<XR5>,
    pub r#in: XS18,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub enum XE23 {
    #[static_xml(prefix = "")]
    V2(Tracked),
    V4,
    V1(XR1),
    #[static_xml(skip)]
    V5(XU0),
    V3(Option<XU2>),
    V0(Option<XR2>),
    #[static_xml(rename = "x")]
    V6(XR2),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(prefix = "t", rename = "x1", namespace = "t: URN:p")]
pub struct XS24 {
    #[static_xml(flatten)]
    pub a: XE17,
    pub r#type: Vec<XS24>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(rename = "p")]
pub struct XS25 {
    #[static_xml(rename = "p", prefix = "")]
    pub name: XS21,
    #[static_xml(attribute, rename = "value")]
    pub visitor: Option<XR5>,
    pub _v: Option<Pair>,
    #[static_xml(attribute)]
    pub lang: Option<XR5>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(prefix = "s", namespace = "s: urn:p/")]
pub enum XE26 {
    #[static_xml(rename = "x2", prefix = "s")]
    V0(XS18),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XS27 {
    #[static_xml(attribute)]
    pub r#use: Option<XR5>,
    #[static_xml(attribute)]
    pub r#match: Option<u64>,
    #[static_xml(attribute, default)]
    pub present: Option<XU2>,
    #[static_xml(attribute)]
    pub c: Option<f64>,
    #[static_xml(attribute, rename = "x2")]
    pub b: XR7,
    #[static_xml(flatten)]
    pub a: XE20,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(prefix = "t", namespace = "t: URN:p")]
pub struct XS28 {
    #[static_xml(attribute, rename = "x", prefix = "xml")]
    pub x10: Option<XRWide>,
    #[static_xml(attribute, prefix = "t")]
    pub out: XRWide,
    #[static_xml(flatten)]
    pub a: XE14,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub enum XE29 {
    #[static_xml(rename = "é")]
    V1(Option<XR9>),
    V0(Pair),
    V2(XR3),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(prefix = "s", rename = "a_b", namespace = "s: urn:p/", namespace = "p: urn:p")]
pub struct XS30 {
    #[static_xml(rename = "Z", prefix = "p")]
    pub b: XU6,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XS31 {
    #[static_xml(attribute, default)]
    pub r#type: Option<XUWide>,
    #[static_xml(attribute)]
    pub present: XR7,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "t: URN:p", namespace = "s: urn:p/", namespace = "q: urn:q")]
pub enum XE32 {
    #[static_xml(skip)]
    V5(Vec<XR8>),
    #[static_xml(skip)]
    V4,
    #[static_xml(rename = "é", prefix = "q")]
    V6(XUWide),
    #[static_xml(rename = "x10", prefix = "s")]
    V0(XR8),
    #[static_xml(prefix = "q")]
    V1(XR8),
    #[static_xml(skip)]
    V2,
    #[static_xml(skip)]
    V3(bool),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XS33 {
    pub _v: String,
    #[static_xml(attribute)]
    pub z: Option<bool>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "q: urn:q", namespace = "pp: urn:p", namespace = "s: urn:p/")]
pub struct XSWide {
    #[static_xml(attribute, prefix = "q")]
    pub f0: Option<XR3>,
    #[static_xml(attribute, rename = "Z")]
    pub f1: Option<XU1>,
    #[static_xml(attribute)]
    pub f2: bool,
    #[static_xml(attribute)]
    pub f3: Option<XR11>,
    pub f4: u64,
    #[static_xml(rename = "かな", prefix = "pp")]
    pub f5: f64,
    #[static_xml(default)]
    pub f6: Option<String>,
    pub f7: Option<String>,
    #[static_xml(prefix = "pp")]
    pub f8: f64,
    #[static_xml(attribute, rename = "B")]
    pub f9: Option<XR5>,
    #[static_xml(attribute, rename = "x2")]
    pub f10: Option<XR0>,
    #[static_xml(rename = "x", prefix = "pp")]
    pub f11: Option<i32>,
    #[static_xml(attribute, prefix = "")]
    pub f12: Option<XU3>,
    #[static_xml(attribute, default, prefix = "q")]
    pub f13: Option<XU3>,
    #[static_xml(prefix = "pp")]
    pub f14: Vec<String>,
    #[static_xml(prefix = "q")]
    pub f15: u64,
    #[static_xml(attribute, prefix = "q")]
    pub f16: Option<XU2>,
    #[static_xml(attribute, default)]
    pub f17: Option<String>,
    #[static_xml(attribute, rename = "x1", prefix = "s")]
    pub f18: Option<XR1>,
    #[static_xml(rename = "name")]
    pub f19: Option<u64>,
    pub f20: Tracked,
    #[static_xml(default, rename = "abc")]
    pub f21: Vec<u64>,
    #[static_xml(attribute, default, rename = "x", prefix = "q")]
    pub f22: Option<f64>,
    #[static_xml(attribute, prefix = "q")]
    pub f23: Option<XUWide>,
    #[static_xml(attribute)]
    pub f24: Option<XU5>,
    #[static_xml(rename = "a", prefix = "s")]
    pub f25: Vec<bool>,
    #[static_xml(attribute, rename = "value")]
    pub f26: Option<XR5>,
    #[static_xml(prefix = "s")]
    pub f27: bool,
    #[static_xml(attribute, prefix = "pp")]
    pub f28: Option<XR8>,
    #[static_xml(attribute, prefix = "pp")]
    pub f29: Option<XR4>,
    #[static_xml(default, prefix = "s")]
    pub f30: Option<Tracked>,
    #[static_xml(attribute, prefix = "s")]
    pub f31: Option<f64>,
    #[static_xml(rename = "x1")]
    pub f32: Tracked,
    #[static_xml(rename = "かな", prefix = "s")]
    pub f33: Vec<Tracked>,
    #[static_xml(attribute, rename = "b")]
    pub f34: XR9,
    #[static_xml(attribute, rename = "abc", prefix = "s")]
    pub f35: XR1,
    #[static_xml(prefix = "s")]
    pub f36: Option<bool>,
    #[static_xml(attribute, rename = "UPPER.case")]
    pub f37: Option<XR0>,
    #[static_xml(default, rename = "a-b", prefix = "pp")]
    pub f38: f64,
    #[static_xml(attribute, prefix = "pp")]
    pub f39: XR7,
    #[static_xml(attribute, default, prefix = "s")]
    pub f40: Option<XR4>,
    #[static_xml(default, rename = "_u")]
    pub f41: u64,
    #[static_xml(attribute, default, prefix = "")]
    pub f42: Option<XR9>,
    #[static_xml(prefix = "pp")]
    pub f43: Option<String>,
    #[static_xml(rename = "z")]
    pub f44: Vec<String>,
    #[static_xml(prefix = "")]
    pub f45: bool,
    #[static_xml(prefix = "s")]
    pub f46: Option<u64>,
    #[static_xml(attribute, prefix = "q")]
    pub f47: XU2,
    #[static_xml(attribute, prefix = "q")]
    pub f48: f64,
    #[static_xml(attribute, rename = "x1")]
    pub f49: XR9,
    #[static_xml(attribute, rename = "Z", prefix = "pp")]
    pub f50: Option<XR5>,
    #[static_xml(attribute)]
    pub f51: Option<XU0>,
    #[static_xml(prefix = "")]
    pub f52: Vec<Tracked>,
    #[static_xml(attribute, prefix = "pp")]
    pub f53: Option<XU6>,
    #[static_xml(attribute)]
    pub f54: Option<XR5>,
    #[static_xml(prefix = "s")]
    pub f55: Vec<u64>,
    #[static_xml(attribute, prefix = "pp")]
    pub f56: Option<XR2>,
    #[static_xml(default)]
    pub f57: Vec<bool>,
    #[static_xml(attribute)]
    pub f58: i32,
    #[static_xml(prefix = "q")]
    pub f59: f64,
    #[static_xml(attribute, rename = "id", prefix = "q")]
    pub f60: Option<XR9>,
    #[static_xml(rename = "type")]
    pub f61: f64,
    #[static_xml(attribute, rename = "UPPER.case", prefix = "pp")]
    pub f62: XU6,
    #[static_xml(attribute, prefix = "s")]
    pub f63: Option<Color>,
    #[static_xml(attribute, prefix = "q")]
    pub f64: Option<Tracked>,
    #[static_xml(attribute, rename = "かな")]
    pub f65: Color,
    #[static_xml(attribute)]
    pub f66: Option<XR0>,
    #[static_xml(default)]
    pub f67: Vec<i32>,
    #[static_xml(attribute, rename = "_u")]
    pub f68: Option<Pair>,
    #[static_xml(prefix = "pp")]
    pub f69: Option<i32>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XSHuge {
    #[static_xml(rename = "n0")]
    pub f0: Option<i32>,
    #[static_xml(attribute, rename = "n856")]
    pub f1: Option<i32>,
    #[static_xml(rename = "n703")]
    pub f2: Option<i32>,
    #[static_xml(attribute, rename = "n550")]
    pub f3: Option<i32>,
    #[static_xml(rename = "n397")]
    pub f4: Option<i32>,
    #[static_xml(attribute, rename = "n244")]
    pub f5: Option<i32>,
    #[static_xml(rename = "n91")]
    pub f6: Option<i32>,
    #[static_xml(attribute, rename = "n947")]
    pub f7: Option<i32>,
    #[static_xml(rename = "n794")]
    pub f8: Option<i32>,
    #[static_xml(attribute, rename = "n641")]
    pub f9: Option<i32>,
    #[static_xml(rename = "n488")]
    pub f10: Option<i32>,
    #[static_xml(attribute, rename = "n335")]
    pub f11: Option<i32>,
    #[static_xml(rename = "n182")]
    pub f12: Option<i32>,
    #[static_xml(attribute, rename = "n29")]
    pub f13: Option<i32>,
    #[static_xml(rename = "n885")]
    pub f14: Option<i32>,
    #[static_xml(attribute, rename = "n732")]
    pub f15: Option<i32>,
    #[static_xml(rename = "n579")]
    pub f16: Option<i32>,
    #[static_xml(attribute, rename = "n426")]
    pub f17: Option<i32>,
    #[static_xml(rename = "n273")]
    pub f18: Option<i32>,
    #[static_xml(attribute, rename = "n120")]
    pub f19: Option<i32>,
    #[static_xml(rename = "n976")]
    pub f20: Option<i32>,
    #[static_xml(attribute, rename = "n823")]
    pub f21: Option<i32>,
    #[static_xml(rename = "n670")]
    pub f22: Option<i32>,
    #[static_xml(attribute, rename = "n517")]
    pub f23: Option<i32>,
    #[static_xml(rename = "n364")]
    pub f24: Option<i32>,
    #[static_xml(attribute, rename = "n211")]
    pub f25: Option<i32>,
    #[static_xml(rename = "n58")]
    pub f26: Option<i32>,
    #[static_xml(attribute, rename = "n914")]
    pub f27: Option<i32>,
    #[static_xml(rename = "n761")]
    pub f28: Option<i32>,
    #[static_xml(attribute, rename = "n608")]
    pub f29: Option<i32>,
    #[static_xml(rename = "n455")]
    pub f30: Option<i32>,
    #[static_xml(attribute, rename = "n302")]
    pub f31: Option<i32>,
    #[static_xml(rename = "n149")]
    pub f32: Option<i32>,
    #[static_xml(attribute, rename = "n1005")]
    pub f33: Option<i32>,
    #[static_xml(rename = "n852")]
    pub f34: Option<i32>,
    #[static_xml(attribute, rename = "n699")]
    pub f35: Option<i32>,
    #[static_xml(rename = "n546")]
    pub f36: Option<i32>,
    #[static_xml(attribute, rename = "n393")]
    pub f37: Option<i32>,
    #[static_xml(rename = "n240")]
    pub f38: Option<i32>,
    #[static_xml(attribute, rename = "n87")]
    pub f39: Option<i32>,
    #[static_xml(rename = "n943")]
    pub f40: Option<i32>,
    #[static_xml(attribute, rename = "n790")]
    pub f41: Option<i32>,
    #[static_xml(rename = "n637")]
    pub f42: Option<i32>,
    #[static_xml(attribute, rename = "n484")]
    pub f43: Option<i32>,
    #[static_xml(rename = "n331")]
    pub f44: Option<i32>,
    #[static_xml(attribute, rename = "n178")]
    pub f45: Option<i32>,
    #[static_xml(rename = "n25")]
    pub f46: Option<i32>,
    #[static_xml(attribute, rename = "n881")]
    pub f47: Option<i32>,
    #[static_xml(rename = "n728")]
    pub f48: Option<i32>,
    #[static_xml(attribute, rename = "n575")]
    pub f49: Option<i32>,
    #[static_xml(rename = "n422")]
    pub f50: Option<i32>,
    #[static_xml(attribute, rename = "n269")]
    pub f51: Option<i32>,
    #[static_xml(rename = "n116")]
    pub f52: Option<i32>,
    #[static_xml(attribute, rename = "n972")]
    pub f53: Option<i32>,
    #[static_xml(rename = "n819")]
    pub f54: Option<i32>,
    #[static_xml(attribute, rename = "n666")]
    pub f55: Option<i32>,
    #[static_xml(rename = "n513")]
    pub f56: Option<i32>,
    #[static_xml(attribute, rename = "n360")]
    pub f57: Option<i32>,
    #[static_xml(rename = "n207")]
    pub f58: Option<i32>,
    #[static_xml(attribute, rename = "n54")]
    pub f59: Option<i32>,
    #[static_xml(rename = "n910")]
    pub f60: Option<i32>,
    #[static_xml(attribute, rename = "n757")]
    pub f61: Option<i32>,
    #[static_xml(rename = "n604")]
    pub f62: Option<i32>,
    #[static_xml(attribute, rename = "n451")]
    pub f63: Option<i32>,
    #[static_xml(rename = "n298")]
    pub f64: Option<i32>,
    #[static_xml(attribute, rename = "n145")]
    pub f65: Option<i32>,
    #[static_xml(rename = "n1001")]
    pub f66: Option<i32>,
    #[static_xml(attribute, rename = "n848")]
    pub f67: Option<i32>,
    #[static_xml(rename = "n695")]
    pub f68: Option<i32>,
    #[static_xml(attribute, rename = "n542")]
    pub f69: Option<i32>,
    #[static_xml(rename = "n389")]
    pub f70: Option<i32>,
    #[static_xml(attribute, rename = "n236")]
    pub f71: Option<i32>,
    #[static_xml(rename = "n83")]
    pub f72: Option<i32>,
    #[static_xml(attribute, rename = "n939")]
    pub f73: Option<i32>,
    #[static_xml(rename = "n786")]
    pub f74: Option<i32>,
    #[static_xml(attribute, rename = "n633")]
    pub f75: Option<i32>,
    #[static_xml(rename = "n480")]
    pub f76: Option<i32>,
    #[static_xml(attribute, rename = "n327")]
    pub f77: Option<i32>,
    #[static_xml(rename = "n174")]
    pub f78: Option<i32>,
    #[static_xml(attribute, rename = "n21")]
    pub f79: Option<i32>,
    #[static_xml(rename = "n877")]
    pub f80: Option<i32>,
    #[static_xml(attribute, rename = "n724")]
    pub f81: Option<i32>,
    #[static_xml(rename = "n571")]
    pub f82: Option<i32>,
    #[static_xml(attribute, rename = "n418")]
    pub f83: Option<i32>,
    #[static_xml(rename = "n265")]
    pub f84: Option<i32>,
    #[static_xml(attribute, rename = "n112")]
    pub f85: Option<i32>,
    #[static_xml(rename = "n968")]
    pub f86: Option<i32>,
    #[static_xml(attribute, rename = "n815")]
    pub f87: Option<i32>,
    #[static_xml(rename = "n662")]
    pub f88: Option<i32>,
    #[static_xml(attribute, rename = "n509")]
    pub f89: Option<i32>,
    #[static_xml(rename = "n356")]
    pub f90: Option<i32>,
    #[static_xml(attribute, rename = "n203")]
    pub f91: Option<i32>,
    #[static_xml(rename = "n50")]
    pub f92: Option<i32>,
    #[static_xml(attribute, rename = "n906")]
    pub f93: Option<i32>,
    #[static_xml(rename = "n753")]
    pub f94: Option<i32>,
    #[static_xml(attribute, rename = "n600")]
    pub f95: Option<i32>,
    #[static_xml(rename = "n447")]
    pub f96: Option<i32>,
    #[static_xml(attribute, rename = "n294")]
    pub f97: Option<i32>,
    #[static_xml(rename = "n141")]
    pub f98: Option<i32>,
    #[static_xml(attribute, rename = "n997")]
    pub f99: Option<i32>,
    #[static_xml(rename = "n844")]
    pub f100: Option<i32>,
    #[static_xml(attribute, rename = "n691")]
    pub f101: Option<i32>,
    #[static_xml(rename = "n538")]
    pub f102: Option<i32>,
    #[static_xml(attribute, rename = "n385")]
    pub f103: Option<i32>,
    #[static_xml(rename = "n232")]
    pub f104: Option<i32>,
    #[static_xml(attribute, rename = "n79")]
    pub f105: Option<i32>,
    #[static_xml(rename = "n935")]
    pub f106: Option<i32>,
    #[static_xml(attribute, rename = "n782")]
    pub f107: Option<i32>,
    #[static_xml(rename = "n629")]
    pub f108: Option<i32>,
    #[static_xml(attribute, rename = "n476")]
    pub f109: Option<i32>,
    #[static_xml(rename = "n323")]
    pub f110: Option<i32>,
    #[static_xml(attribute, rename = "n170")]
    pub f111: Option<i32>,
    #[static_xml(rename = "n17")]
    pub f112: Option<i32>,
    #[static_xml(attribute, rename = "n873")]
    pub f113: Option<i32>,
    #[static_xml(rename = "n720")]
    pub f114: Option<i32>,
    #[static_xml(attribute, rename = "n567")]
    pub f115: Option<i32>,
    #[static_xml(rename = "n414")]
    pub f116: Option<i32>,
    #[static_xml(attribute, rename = "n261")]
    pub f117: Option<i32>,
    #[static_xml(rename = "n108")]
    pub f118: Option<i32>,
    #[static_xml(attribute, rename = "n964")]
    pub f119: Option<i32>,
    #[static_xml(rename = "n811")]
    pub f120: Option<i32>,
    #[static_xml(attribute, rename = "n658")]
    pub f121: Option<i32>,
    #[static_xml(rename = "n505")]
    pub f122: Option<i32>,
    #[static_xml(attribute, rename = "n352")]
    pub f123: Option<i32>,
    #[static_xml(rename = "n199")]
    pub f124: Option<i32>,
    #[static_xml(attribute, rename = "n46")]
    pub f125: Option<i32>,
    #[static_xml(rename = "n902")]
    pub f126: Option<i32>,
    #[static_xml(attribute, rename = "n749")]
    pub f127: Option<i32>,
    #[static_xml(rename = "n596")]
    pub f128: Option<i32>,
    #[static_xml(attribute, rename = "n443")]
    pub f129: Option<i32>,
    #[static_xml(rename = "n290")]
    pub f130: Option<i32>,
    #[static_xml(attribute, rename = "n137")]
    pub f131: Option<i32>,
    #[static_xml(rename = "n993")]
    pub f132: Option<i32>,
    #[static_xml(attribute, rename = "n840")]
    pub f133: Option<i32>,
    #[static_xml(rename = "n687")]
    pub f134: Option<i32>,
    #[static_xml(attribute, rename = "n534")]
    pub f135: Option<i32>,
    #[static_xml(rename = "n381")]
    pub f136: Option<i32>,
    #[static_xml(attribute, rename = "n228")]
    pub f137: Option<i32>,
    #[static_xml(rename = "n75")]
    pub f138: Option<i32>,
    #[static_xml(attribute, rename = "n931")]
    pub f139: Option<i32>,
    #[static_xml(rename = "n778")]
    pub f140: Option<i32>,
    #[static_xml(attribute, rename = "n625")]
    pub f141: Option<i32>,
    #[static_xml(rename = "n472")]
    pub f142: Option<i32>,
    #[static_xml(attribute, rename = "n319")]
    pub f143: Option<i32>,
    #[static_xml(rename = "n166")]
    pub f144: Option<i32>,
    #[static_xml(attribute, rename = "n13")]
    pub f145: Option<i32>,
    #[static_xml(rename = "n869")]
    pub f146: Option<i32>,
    #[static_xml(attribute, rename = "n716")]
    pub f147: Option<i32>,
    #[static_xml(rename = "n563")]
    pub f148: Option<i32>,
    #[static_xml(attribute, rename = "n410")]
    pub f149: Option<i32>,
    #[static_xml(rename = "n257")]
    pub f150: Option<i32>,
    #[static_xml(attribute, rename = "n104")]
    pub f151: Option<i32>,
    #[static_xml(rename = "n960")]
    pub f152: Option<i32>,
    #[static_xml(attribute, rename = "n807")]
    pub f153: Option<i32>,
    #[static_xml(rename = "n654")]
    pub f154: Option<i32>,
    #[static_xml(attribute, rename = "n501")]
    pub f155: Option<i32>,
    #[static_xml(rename = "n348")]
    pub f156: Option<i32>,
    #[static_xml(attribute, rename = "n195")]
    pub f157: Option<i32>,
    #[static_xml(rename = "n42")]
    pub f158: Option<i32>,
    #[static_xml(attribute, rename = "n898")]
    pub f159: Option<i32>,
    #[static_xml(rename = "n745")]
    pub f160: Option<i32>,
    #[static_xml(attribute, rename = "n592")]
    pub f161: Option<i32>,
    #[static_xml(rename = "n439")]
    pub f162: Option<i32>,
    #[static_xml(attribute, rename = "n286")]
    pub f163: Option<i32>,
    #[static_xml(rename = "n133")]
    pub f164: Option<i32>,
    #[static_xml(attribute, rename = "n989")]
    pub f165: Option<i32>,
    #[static_xml(rename = "n836")]
    pub f166: Option<i32>,
    #[static_xml(attribute, rename = "n683")]
    pub f167: Option<i32>,
    #[static_xml(rename = "n530")]
    pub f168: Option<i32>,
    #[static_xml(attribute, rename = "n377")]
    pub f169: Option<i32>,
    #[static_xml(rename = "n224")]
    pub f170: Option<i32>,
    #[static_xml(attribute, rename = "n71")]
    pub f171: Option<i32>,
    #[static_xml(rename = "n927")]
    pub f172: Option<i32>,
    #[static_xml(attribute, rename = "n774")]
    pub f173: Option<i32>,
    #[static_xml(rename = "n621")]
    pub f174: Option<i32>,
    #[static_xml(attribute, rename = "n468")]
    pub f175: Option<i32>,
    #[static_xml(rename = "n315")]
    pub f176: Option<i32>,
    #[static_xml(attribute, rename = "n162")]
    pub f177: Option<i32>,
    #[static_xml(rename = "n9")]
    pub f178: Option<i32>,
    #[static_xml(attribute, rename = "n865")]
    pub f179: Option<i32>,
    #[static_xml(rename = "n712")]
    pub f180: Option<i32>,
    #[static_xml(attribute, rename = "n559")]
    pub f181: Option<i32>,
    #[static_xml(rename = "n406")]
    pub f182: Option<i32>,
    #[static_xml(attribute, rename = "n253")]
    pub f183: Option<i32>,
    #[static_xml(rename = "n100")]
    pub f184: Option<i32>,
    #[static_xml(attribute, rename = "n956")]
    pub f185: Option<i32>,
    #[static_xml(rename = "n803")]
    pub f186: Option<i32>,
    #[static_xml(attribute, rename = "n650")]
    pub f187: Option<i32>,
    #[static_xml(rename = "n497")]
    pub f188: Option<i32>,
    #[static_xml(attribute, rename = "n344")]
    pub f189: Option<i32>,
    #[static_xml(rename = "n191")]
    pub f190: Option<i32>,
    #[static_xml(attribute, rename = "n38")]
    pub f191: Option<i32>,
    #[static_xml(rename = "n894")]
    pub f192: Option<i32>,
    #[static_xml(attribute, rename = "n741")]
    pub f193: Option<i32>,
    #[static_xml(rename = "n588")]
    pub f194: Option<i32>,
    #[static_xml(attribute, rename = "n435")]
    pub f195: Option<i32>,
    #[static_xml(rename = "n282")]
    pub f196: Option<i32>,
    #[static_xml(attribute, rename = "n129")]
    pub f197: Option<i32>,
    #[static_xml(rename = "n985")]
    pub f198: Option<i32>,
    #[static_xml(attribute, rename = "n832")]
    pub f199: Option<i32>,
    #[static_xml(rename = "n679")]
    pub f200: Option<i32>,
    #[static_xml(attribute, rename = "n526")]
    pub f201: Option<i32>,
    #[static_xml(rename = "n373")]
    pub f202: Option<i32>,
    #[static_xml(attribute, rename = "n220")]
    pub f203: Option<i32>,
    #[static_xml(rename = "n67")]
    pub f204: Option<i32>,
    #[static_xml(attribute, rename = "n923")]
    pub f205: Option<i32>,
    #[static_xml(rename = "n770")]
    pub f206: Option<i32>,
    #[static_xml(attribute, rename = "n617")]
    pub f207: Option<i32>,
    #[static_xml(rename = "n464")]
    pub f208: Option<i32>,
    #[static_xml(attribute, rename = "n311")]
    pub f209: Option<i32>,
    #[static_xml(rename = "n158")]
    pub f210: Option<i32>,
    #[static_xml(attribute, rename = "n5")]
    pub f211: Option<i32>,
    #[static_xml(rename = "n861")]
    pub f212: Option<i32>,
    #[static_xml(attribute, rename = "n708")]
    pub f213: Option<i32>,
    #[static_xml(rename = "n555")]
    pub f214: Option<i32>,
    #[static_xml(attribute, rename = "n402")]
    pub f215: Option<i32>,
    #[static_xml(rename = "n249")]
    pub f216: Option<i32>,
    #[static_xml(attribute, rename = "n96")]
    pub f217: Option<i32>,
    #[static_xml(rename = "n952")]
    pub f218: Option<i32>,
    #[static_xml(attribute, rename = "n799")]
    pub f219: Option<i32>,
    #[static_xml(rename = "n646")]
    pub f220: Option<i32>,
    #[static_xml(attribute, rename = "n493")]
    pub f221: Option<i32>,
    #[static_xml(rename = "n340")]
    pub f222: Option<i32>,
    #[static_xml(attribute, rename = "n187")]
    pub f223: Option<i32>,
    #[static_xml(rename = "n34")]
    pub f224: Option<i32>,
    #[static_xml(attribute, rename = "n890")]
    pub f225: Option<i32>,
    #[static_xml(rename = "n737")]
    pub f226: Option<i32>,
    #[static_xml(attribute, rename = "n584")]
    pub f227: Option<i32>,
    #[static_xml(rename = "n431")]
    pub f228: Option<i32>,
    #[static_xml(attribute, rename = "n278")]
    pub f229: Option<i32>,
    #[static_xml(rename = "n125")]
    pub f230: Option<i32>,
    #[static_xml(attribute, rename = "n981")]
    pub f231: Option<i32>,
    #[static_xml(rename = "n828")]
    pub f232: Option<i32>,
    #[static_xml(attribute, rename = "n675")]
    pub f233: Option<i32>,
    #[static_xml(rename = "n522")]
    pub f234: Option<i32>,
    #[static_xml(attribute, rename = "n369")]
    pub f235: Option<i32>,
    #[static_xml(rename = "n216")]
    pub f236: Option<i32>,
    #[static_xml(attribute, rename = "n63")]
    pub f237: Option<i32>,
    #[static_xml(rename = "n919")]
    pub f238: Option<i32>,
    #[static_xml(attribute, rename = "n766")]
    pub f239: Option<i32>,
    #[static_xml(rename = "n613")]
    pub f240: Option<i32>,
    #[static_xml(attribute, rename = "n460")]
    pub f241: Option<i32>,
    #[static_xml(rename = "n307")]
    pub f242: Option<i32>,
    #[static_xml(attribute, rename = "n154")]
    pub f243: Option<i32>,
    #[static_xml(rename = "n1")]
    pub f244: Option<i32>,
    #[static_xml(attribute, rename = "n857")]
    pub f245: Option<i32>,
    #[static_xml(rename = "n704")]
    pub f246: Option<i32>,
    #[static_xml(attribute, rename = "n551")]
    pub f247: Option<i32>,
    #[static_xml(rename = "n398")]
    pub f248: Option<i32>,
    #[static_xml(attribute, rename = "n245")]
    pub f249: Option<i32>,
    #[static_xml(rename = "n92")]
    pub f250: Option<i32>,
    #[static_xml(attribute, rename = "n948")]
    pub f251: Option<i32>,
    #[static_xml(rename = "n795")]
    pub f252: Option<i32>,
    #[static_xml(attribute, rename = "n642")]
    pub f253: Option<i32>,
    #[static_xml(rename = "n489")]
    pub f254: Option<i32>,
    #[static_xml(attribute, rename = "n336")]
    pub f255: Option<i32>,
    #[static_xml(rename = "n183")]
    pub f256: Option<i32>,
    #[static_xml(attribute, rename = "n30")]
    pub f257: Option<i32>,
    #[static_xml(rename = "n886")]
    pub f258: Option<i32>,
    #[static_xml(attribute, rename = "n733")]
    pub f259: Option<i32>,
    #[static_xml(rename = "n580")]
    pub f260: Option<i32>,
    #[static_xml(attribute, rename = "n427")]
    pub f261: Option<i32>,
    #[static_xml(rename = "n274")]
    pub f262: Option<i32>,
    #[static_xml(attribute, rename = "n121")]
    pub f263: Option<i32>,
    #[static_xml(rename = "n977")]
    pub f264: Option<i32>,
    #[static_xml(attribute, rename = "n824")]
    pub f265: Option<i32>,
    #[static_xml(rename = "n671")]
    pub f266: Option<i32>,
    #[static_xml(attribute, rename = "n518")]
    pub f267: Option<i32>,
    #[static_xml(rename = "n365")]
    pub f268: Option<i32>,
    #[static_xml(attribute, rename = "n212")]
    pub f269: Option<i32>,
    #[static_xml(rename = "n59")]
    pub f270: Option<i32>,
    #[static_xml(attribute, rename = "n915")]
    pub f271: Option<i32>,
    #[static_xml(rename = "n762")]
    pub f272: Option<i32>,
    #[static_xml(attribute, rename = "n609")]
    pub f273: Option<i32>,
    #[static_xml(rename = "n456")]
    pub f274: Option<i32>,
    #[static_xml(attribute, rename = "n303")]
    pub f275: Option<i32>,
    #[static_xml(rename = "n150")]
    pub f276: Option<i32>,
    #[static_xml(attribute, rename = "n1006")]
    pub f277: Option<i32>,
    #[static_xml(rename = "n853")]
    pub f278: Option<i32>,
    #[static_xml(attribute, rename = "n700")]
    pub f279: Option<i32>,
    #[static_xml(rename = "n547")]
    pub f280: Option<i32>,
    #[static_xml(attribute, rename = "n394")]
    pub f281: Option<i32>,
    #[static_xml(rename = "n241")]
    pub f282: Option<i32>,
    #[static_xml(attribute, rename = "n88")]
    pub f283: Option<i32>,
    #[static_xml(rename = "n944")]
    pub f284: Option<i32>,
    #[static_xml(attribute, rename = "n791")]
    pub f285: Option<i32>,
    #[static_xml(rename = "n638")]
    pub f286: Option<i32>,
    #[static_xml(attribute, rename = "n485")]
    pub f287: Option<i32>,
    #[static_xml(rename = "n332")]
    pub f288: Option<i32>,
    #[static_xml(attribute, rename = "n179")]
    pub f289: Option<i32>,
    #[static_xml(rename = "n26")]
    pub f290: Option<i32>,
    #[static_xml(attribute, rename = "n882")]
    pub f291: Option<i32>,
    #[static_xml(rename = "n729")]
    pub f292: Option<i32>,
    #[static_xml(attribute, rename = "n576")]
    pub f293: Option<i32>,
    #[static_xml(rename = "n423")]
    pub f294: Option<i32>,
    #[static_xml(attribute, rename = "n270")]
    pub f295: Option<i32>,
    #[static_xml(rename = "n117")]
    pub f296: Option<i32>,
    #[static_xml(attribute, rename = "n973")]
    pub f297: Option<i32>,
    #[static_xml(rename = "n820")]
    pub f298: Option<i32>,
    #[static_xml(attribute, rename = "n667")]
    pub f299: Option<i32>,
    #[static_xml(rename = "n514")]
    pub f300: Option<i32>,
    #[static_xml(attribute, rename = "n361")]
    pub f301: Option<i32>,
    #[static_xml(rename = "n208")]
    pub f302: Option<i32>,
    #[static_xml(attribute, rename = "n55")]
    pub f303: Option<i32>,
    #[static_xml(rename = "n911")]
    pub f304: Option<i32>,
    #[static_xml(attribute, rename = "n758")]
    pub f305: Option<i32>,
    #[static_xml(rename = "n605")]
    pub f306: Option<i32>,
    #[static_xml(attribute, rename = "n452")]
    pub f307: Option<i32>,
    #[static_xml(rename = "n299")]
    pub f308: Option<i32>,
    #[static_xml(attribute, rename = "n146")]
    pub f309: Option<i32>,
    #[static_xml(rename = "n1002")]
    pub f310: Option<i32>,
    #[static_xml(attribute, rename = "n849")]
    pub f311: Option<i32>,
    #[static_xml(rename = "n696")]
    pub f312: Option<i32>,
    #[static_xml(attribute, rename = "n543")]
    pub f313: Option<i32>,
    #[static_xml(rename = "n390")]
    pub f314: Option<i32>,
    #[static_xml(attribute, rename = "n237")]
    pub f315: Option<i32>,
    #[static_xml(rename = "n84")]
    pub f316: Option<i32>,
    #[static_xml(attribute, rename = "n940")]
    pub f317: Option<i32>,
    #[static_xml(rename = "n787")]
    pub f318: Option<i32>,
    #[static_xml(attribute, rename = "n634")]
    pub f319: Option<i32>,
    #[static_xml(rename = "n481")]
    pub f320: Option<i32>,
    #[static_xml(attribute, rename = "n328")]
    pub f321: Option<i32>,
    #[static_xml(rename = "n175")]
    pub f322: Option<i32>,
    #[static_xml(attribute, rename = "n22")]
    pub f323: Option<i32>,
    #[static_xml(rename = "n878")]
    pub f324: Option<i32>,
    #[static_xml(attribute, rename = "n725")]
    pub f325: Option<i32>,
    #[static_xml(rename = "n572")]
    pub f326: Option<i32>,
    #[static_xml(attribute, rename = "n419")]
    pub f327: Option<i32>,
    #[static_xml(rename = "n266")]
    pub f328: Option<i32>,
    #[static_xml(attribute, rename = "n113")]
    pub f329: Option<i32>,
    #[static_xml(rename = "n969")]
    pub f330: Option<i32>,
    #[static_xml(attribute, rename = "n816")]
    pub f331: Option<i32>,
    #[static_xml(rename = "n663")]
    pub f332: Option<i32>,
    #[static_xml(attribute, rename = "n510")]
    pub f333: Option<i32>,
    #[static_xml(rename = "n357")]
    pub f334: Option<i32>,
    #[static_xml(attribute, rename = "n204")]
    pub f335: Option<i32>,
    #[static_xml(rename = "n51")]
    pub f336: Option<i32>,
    #[static_xml(attribute, rename = "n907")]
    pub f337: Option<i32>,
    #[static_xml(rename = "n754")]
    pub f338: Option<i32>,
    #[static_xml(attribute, rename = "n601")]
    pub f339: Option<i32>,
    #[static_xml(rename = "n448")]
    pub f340: Option<i32>,
    #[static_xml(attribute, rename = "n295")]
    pub f341: Option<i32>,
    #[static_xml(rename = "n142")]
    pub f342: Option<i32>,
    #[static_xml(attribute, rename = "n998")]
    pub f343: Option<i32>,
    #[static_xml(rename = "n845")]
    pub f344: Option<i32>,
    #[static_xml(attribute, rename = "n692")]
    pub f345: Option<i32>,
    #[static_xml(rename = "n539")]
    pub f346: Option<i32>,
    #[static_xml(attribute, rename = "n386")]
    pub f347: Option<i32>,
    #[static_xml(rename = "n233")]
    pub f348: Option<i32>,
    #[static_xml(attribute, rename = "n80")]
    pub f349: Option<i32>,
    #[static_xml(rename = "n936")]
    pub f350: Option<i32>,
    #[static_xml(attribute, rename = "n783")]
    pub f351: Option<i32>,
    #[static_xml(rename = "n630")]
    pub f352: Option<i32>,
    #[static_xml(attribute, rename = "n477")]
    pub f353: Option<i32>,
    #[static_xml(rename = "n324")]
    pub f354: Option<i32>,
    #[static_xml(attribute, rename = "n171")]
    pub f355: Option<i32>,
    #[static_xml(rename = "n18")]
    pub f356: Option<i32>,
    #[static_xml(attribute, rename = "n874")]
    pub f357: Option<i32>,
    #[static_xml(rename = "n721")]
    pub f358: Option<i32>,
    #[static_xml(attribute, rename = "n568")]
    pub f359: Option<i32>,
    #[static_xml(rename = "n415")]
    pub f360: Option<i32>,
    #[static_xml(attribute, rename = "n262")]
    pub f361: Option<i32>,
    #[static_xml(rename = "n109")]
    pub f362: Option<i32>,
    #[static_xml(attribute, rename = "n965")]
    pub f363: Option<i32>,
    #[static_xml(rename = "n812")]
    pub f364: Option<i32>,
    #[static_xml(attribute, rename = "n659")]
    pub f365: Option<i32>,
    #[static_xml(rename = "n506")]
    pub f366: Option<i32>,
    #[static_xml(attribute, rename = "n353")]
    pub f367: Option<i32>,
    #[static_xml(rename = "n200")]
    pub f368: Option<i32>,
    #[static_xml(attribute, rename = "n47")]
    pub f369: Option<i32>,
    #[static_xml(rename = "n903")]
    pub f370: Option<i32>,
    #[static_xml(attribute, rename = "n750")]
    pub f371: Option<i32>,
    #[static_xml(rename = "n597")]
    pub f372: Option<i32>,
    #[static_xml(attribute, rename = "n444")]
    pub f373: Option<i32>,
    #[static_xml(rename = "n291")]
    pub f374: Option<i32>,
    #[static_xml(attribute, rename = "n138")]
    pub f375: Option<i32>,
    #[static_xml(rename = "n994")]
    pub f376: Option<i32>,
    #[static_xml(attribute, rename = "n841")]
    pub f377: Option<i32>,
    #[static_xml(rename = "n688")]
    pub f378: Option<i32>,
    #[static_xml(attribute, rename = "n535")]
    pub f379: Option<i32>,
    #[static_xml(rename = "n382")]
    pub f380: Option<i32>,
    #[static_xml(attribute, rename = "n229")]
    pub f381: Option<i32>,
    #[static_xml(rename = "n76")]
    pub f382: Option<i32>,
    #[static_xml(attribute, rename = "n932")]
    pub f383: Option<i32>,
    #[static_xml(rename = "n779")]
    pub f384: Option<i32>,
    #[static_xml(attribute, rename = "n626")]
    pub f385: Option<i32>,
    #[static_xml(rename = "n473")]
    pub f386: Option<i32>,
    #[static_xml(attribute, rename = "n320")]
    pub f387: Option<i32>,
    #[static_xml(rename = "n167")]
    pub f388: Option<i32>,
    #[static_xml(attribute, rename = "n14")]
    pub f389: Option<i32>,
    #[static_xml(rename = "n870")]
    pub f390: Option<i32>,
    #[static_xml(attribute, rename = "n717")]
    pub f391: Option<i32>,
    #[static_xml(rename = "n564")]
    pub f392: Option<i32>,
    #[static_xml(attribute, rename = "n411")]
    pub f393: Option<i32>,
    #[static_xml(rename = "n258")]
    pub f394: Option<i32>,
    #[static_xml(attribute, rename = "n105")]
    pub f395: Option<i32>,
    #[static_xml(rename = "n961")]
    pub f396: Option<i32>,
    #[static_xml(attribute, rename = "n808")]
    pub f397: Option<i32>,
    #[static_xml(rename = "n655")]
    pub f398: Option<i32>,
    #[static_xml(attribute, rename = "n502")]
    pub f399: Option<i32>,
    #[static_xml(rename = "n349")]
    pub f400: Option<i32>,
    #[static_xml(attribute, rename = "n196")]
    pub f401: Option<i32>,
    #[static_xml(rename = "n43")]
    pub f402: Option<i32>,
    #[static_xml(attribute, rename = "n899")]
    pub f403: Option<i32>,
    #[static_xml(rename = "n746")]
    pub f404: Option<i32>,
    #[static_xml(attribute, rename = "n593")]
    pub f405: Option<i32>,
    #[static_xml(rename = "n440")]
    pub f406: Option<i32>,
    #[static_xml(attribute, rename = "n287")]
    pub f407: Option<i32>,
    #[static_xml(rename = "n134")]
    pub f408: Option<i32>,
    #[static_xml(attribute, rename = "n990")]
    pub f409: Option<i32>,
    #[static_xml(rename = "n837")]
    pub f410: Option<i32>,
    #[static_xml(attribute, rename = "n684")]
    pub f411: Option<i32>,
    #[static_xml(rename = "n531")]
    pub f412: Option<i32>,
    #[static_xml(attribute, rename = "n378")]
    pub f413: Option<i32>,
    #[static_xml(rename = "n225")]
    pub f414: Option<i32>,
    #[static_xml(attribute, rename = "n72")]
    pub f415: Option<i32>,
    #[static_xml(rename = "n928")]
    pub f416: Option<i32>,
    #[static_xml(attribute, rename = "n775")]
    pub f417: Option<i32>,
    #[static_xml(rename = "n622")]
    pub f418: Option<i32>,
    #[static_xml(attribute, rename = "n469")]
    pub f419: Option<i32>,
    #[static_xml(rename = "n316")]
    pub f420: Option<i32>,
    #[static_xml(attribute, rename = "n163")]
    pub f421: Option<i32>,
    #[static_xml(rename = "n10")]
    pub f422: Option<i32>,
    #[static_xml(attribute, rename = "n866")]
    pub f423: Option<i32>,
    #[static_xml(rename = "n713")]
    pub f424: Option<i32>,
    #[static_xml(attribute, rename = "n560")]
    pub f425: Option<i32>,
    #[static_xml(rename = "n407")]
    pub f426: Option<i32>,
    #[static_xml(attribute, rename = "n254")]
    pub f427: Option<i32>,
    #[static_xml(rename = "n101")]
    pub f428: Option<i32>,
    #[static_xml(attribute, rename = "n957")]
    pub f429: Option<i32>,
    #[static_xml(rename = "n804")]
    pub f430: Option<i32>,
    #[static_xml(attribute, rename = "n651")]
    pub f431: Option<i32>,
    #[static_xml(rename = "n498")]
    pub f432: Option<i32>,
    #[static_xml(attribute, rename = "n345")]
    pub f433: Option<i32>,
    #[static_xml(rename = "n192")]
    pub f434: Option<i32>,
    #[static_xml(attribute, rename = "n39")]
    pub f435: Option<i32>,
    #[static_xml(rename = "n895")]
    pub f436: Option<i32>,
    #[static_xml(attribute, rename = "n742")]
    pub f437: Option<i32>,
    #[static_xml(rename = "n589")]
    pub f438: Option<i32>,
    #[static_xml(attribute, rename = "n436")]
    pub f439: Option<i32>,
    #[static_xml(rename = "n283")]
    pub f440: Option<i32>,
    #[static_xml(attribute, rename = "n130")]
    pub f441: Option<i32>,
    #[static_xml(rename = "n986")]
    pub f442: Option<i32>,
    #[static_xml(attribute, rename = "n833")]
    pub f443: Option<i32>,
    #[static_xml(rename = "n680")]
    pub f444: Option<i32>,
    #[static_xml(attribute, rename = "n527")]
    pub f445: Option<i32>,
    #[static_xml(rename = "n374")]
    pub f446: Option<i32>,
    #[static_xml(attribute, rename = "n221")]
    pub f447: Option<i32>,
    #[static_xml(rename = "n68")]
    pub f448: Option<i32>,
    #[static_xml(attribute, rename = "n924")]
    pub f449: Option<i32>,
    #[static_xml(rename = "n771")]
    pub f450: Option<i32>,
    #[static_xml(attribute, rename = "n618")]
    pub f451: Option<i32>,
    #[static_xml(rename = "n465")]
    pub f452: Option<i32>,
    #[static_xml(attribute, rename = "n312")]
    pub f453: Option<i32>,
    #[static_xml(rename = "n159")]
    pub f454: Option<i32>,
    #[static_xml(attribute, rename = "n6")]
    pub f455: Option<i32>,
    #[static_xml(rename = "n862")]
    pub f456: Option<i32>,
    #[static_xml(attribute, rename = "n709")]
    pub f457: Option<i32>,
    #[static_xml(rename = "n556")]
    pub f458: Option<i32>,
    #[static_xml(attribute, rename = "n403")]
    pub f459: Option<i32>,
    #[static_xml(rename = "n250")]
    pub f460: Option<i32>,
    #[static_xml(attribute, rename = "n97")]
    pub f461: Option<i32>,
    #[static_xml(rename = "n953")]
    pub f462: Option<i32>,
    #[static_xml(attribute, rename = "n800")]
    pub f463: Option<i32>,
    #[static_xml(rename = "n647")]
    pub f464: Option<i32>,
    #[static_xml(attribute, rename = "n494")]
    pub f465: Option<i32>,
    #[static_xml(rename = "n341")]
    pub f466: Option<i32>,
    #[static_xml(attribute, rename = "n188")]
    pub f467: Option<i32>,
    #[static_xml(rename = "n35")]
    pub f468: Option<i32>,
    #[static_xml(attribute, rename = "n891")]
    pub f469: Option<i32>,
    #[static_xml(rename = "n738")]
    pub f470: Option<i32>,
    #[static_xml(attribute, rename = "n585")]
    pub f471: Option<i32>,
    #[static_xml(rename = "n432")]
    pub f472: Option<i32>,
    #[static_xml(attribute, rename = "n279")]
    pub f473: Option<i32>,
    #[static_xml(rename = "n126")]
    pub f474: Option<i32>,
    #[static_xml(attribute, rename = "n982")]
    pub f475: Option<i32>,
    #[static_xml(rename = "n829")]
    pub f476: Option<i32>,
    #[static_xml(attribute, rename = "n676")]
    pub f477: Option<i32>,
    #[static_xml(rename = "n523")]
    pub f478: Option<i32>,
    #[static_xml(attribute, rename = "n370")]
    pub f479: Option<i32>,
    #[static_xml(rename = "n217")]
    pub f480: Option<i32>,
    #[static_xml(attribute, rename = "n64")]
    pub f481: Option<i32>,
    #[static_xml(rename = "n920")]
    pub f482: Option<i32>,
    #[static_xml(attribute, rename = "n767")]
    pub f483: Option<i32>,
    #[static_xml(rename = "n614")]
    pub f484: Option<i32>,
    #[static_xml(attribute, rename = "n461")]
    pub f485: Option<i32>,
    #[static_xml(rename = "n308")]
    pub f486: Option<i32>,
    #[static_xml(attribute, rename = "n155")]
    pub f487: Option<i32>,
    #[static_xml(rename = "n2")]
    pub f488: Option<i32>,
    #[static_xml(attribute, rename = "n858")]
    pub f489: Option<i32>,
    #[static_xml(rename = "n705")]
    pub f490: Option<i32>,
    #[static_xml(attribute, rename = "n552")]
    pub f491: Option<i32>,
    #[static_xml(rename = "n399")]
    pub f492: Option<i32>,
    #[static_xml(attribute, rename = "n246")]
    pub f493: Option<i32>,
    #[static_xml(rename = "n93")]
    pub f494: Option<i32>,
    #[static_xml(attribute, rename = "n949")]
    pub f495: Option<i32>,
    #[static_xml(rename = "n796")]
    pub f496: Option<i32>,
    #[static_xml(attribute, rename = "n643")]
    pub f497: Option<i32>,
    #[static_xml(rename = "n490")]
    pub f498: Option<i32>,
    #[static_xml(attribute, rename = "n337")]
    pub f499: Option<i32>,
    #[static_xml(rename = "n184")]
    pub f500: Option<i32>,
    #[static_xml(attribute, rename = "n31")]
    pub f501: Option<i32>,
    #[static_xml(rename = "n887")]
    pub f502: Option<i32>,
    #[static_xml(attribute, rename = "n734")]
    pub f503: Option<i32>,
    #[static_xml(rename = "n581")]
    pub f504: Option<i32>,
    #[static_xml(attribute, rename = "n428")]
    pub f505: Option<i32>,
    #[static_xml(rename = "n275")]
    pub f506: Option<i32>,
    #[static_xml(attribute, rename = "n122")]
    pub f507: Option<i32>,
    #[static_xml(rename = "n978")]
    pub f508: Option<i32>,
    #[static_xml(attribute, rename = "n825")]
    pub f509: Option<i32>,
    #[static_xml(rename = "n672")]
    pub f510: Option<i32>,
    #[static_xml(attribute, rename = "n519")]
    pub f511: Option<i32>,
    #[static_xml(rename = "n366")]
    pub f512: Option<i32>,
    #[static_xml(attribute, rename = "n213")]
    pub f513: Option<i32>,
    #[static_xml(rename = "n60")]
    pub f514: Option<i32>,
    #[static_xml(attribute, rename = "n916")]
    pub f515: Option<i32>,
    #[static_xml(rename = "n763")]
    pub f516: Option<i32>,
    #[static_xml(attribute, rename = "n610")]
    pub f517: Option<i32>,
    #[static_xml(rename = "n457")]
    pub f518: Option<i32>,
    #[static_xml(attribute, rename = "n304")]
    pub f519: Option<i32>,
    #[static_xml(rename = "n151")]
    pub f520: Option<i32>,
    #[static_xml(attribute, rename = "n1007")]
    pub f521: Option<i32>,
    #[static_xml(rename = "n854")]
    pub f522: Option<i32>,
    #[static_xml(attribute, rename = "n701")]
    pub f523: Option<i32>,
    #[static_xml(rename = "n548")]
    pub f524: Option<i32>,
    #[static_xml(attribute, rename = "n395")]
    pub f525: Option<i32>,
    #[static_xml(rename = "n242")]
    pub f526: Option<i32>,
    #[static_xml(attribute, rename = "n89")]
    pub f527: Option<i32>,
    #[static_xml(rename = "n945")]
    pub f528: Option<i32>,
    #[static_xml(attribute, rename = "n792")]
    pub f529: Option<i32>,
    #[static_xml(rename = "n639")]
    pub f530: Option<i32>,
    #[static_xml(attribute, rename = "n486")]
    pub f531: Option<i32>,
    #[static_xml(rename = "n333")]
    pub f532: Option<i32>,
    #[static_xml(attribute, rename = "n180")]
    pub f533: Option<i32>,
    #[static_xml(rename = "n27")]
    pub f534: Option<i32>,
    #[static_xml(attribute, rename = "n883")]
    pub f535: Option<i32>,
    #[static_xml(rename = "n730")]
    pub f536: Option<i32>,
    #[static_xml(attribute, rename = "n577")]
    pub f537: Option<i32>,
    #[static_xml(rename = "n424")]
    pub f538: Option<i32>,
    #[static_xml(attribute, rename = "n271")]
    pub f539: Option<i32>,
    #[static_xml(rename = "n118")]
    pub f540: Option<i32>,
    #[static_xml(attribute, rename = "n974")]
    pub f541: Option<i32>,
    #[static_xml(rename = "n821")]
    pub f542: Option<i32>,
    #[static_xml(attribute, rename = "n668")]
    pub f543: Option<i32>,
    #[static_xml(rename = "n515")]
    pub f544: Option<i32>,
    #[static_xml(attribute, rename = "n362")]
    pub f545: Option<i32>,
    #[static_xml(rename = "n209")]
    pub f546: Option<i32>,
    #[static_xml(attribute, rename = "n56")]
    pub f547: Option<i32>,
    #[static_xml(rename = "n912")]
    pub f548: Option<i32>,
    #[static_xml(attribute, rename = "n759")]
    pub f549: Option<i32>,
    #[static_xml(rename = "n606")]
    pub f550: Option<i32>,
    #[static_xml(attribute, rename = "n453")]
    pub f551: Option<i32>,
    #[static_xml(rename = "n300")]
    pub f552: Option<i32>,
    #[static_xml(attribute, rename = "n147")]
    pub f553: Option<i32>,
    #[static_xml(rename = "n1003")]
    pub f554: Option<i32>,
    #[static_xml(attribute, rename = "n850")]
    pub f555: Option<i32>,
    #[static_xml(rename = "n697")]
    pub f556: Option<i32>,
    #[static_xml(attribute, rename = "n544")]
    pub f557: Option<i32>,
    #[static_xml(rename = "n391")]
    pub f558: Option<i32>,
    #[static_xml(attribute, rename = "n238")]
    pub f559: Option<i32>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub enum XEHuge {
    #[static_xml(rename = "n0")]
    V0,
    #[static_xml(rename = "n856")]
    V1(i32),
    #[static_xml(rename = "n703")]
    V2,
    #[static_xml(rename = "n550")]
    V3(i32),
    #[static_xml(rename = "n397")]
    V4,
    #[static_xml(rename = "n244")]
    V5(i32),
    #[static_xml(rename = "n91")]
    V6,
    #[static_xml(rename = "n947")]
    V7(i32),
    #[static_xml(rename = "n794")]
    V8,
    #[static_xml(rename = "n641")]
    V9(i32),
    #[static_xml(rename = "n488")]
    V10,
    #[static_xml(rename = "n335")]
    V11(i32),
    #[static_xml(rename = "n182")]
    V12,
    #[static_xml(rename = "n29")]
    V13(i32),
    #[static_xml(rename = "n885")]
    V14,
    #[static_xml(rename = "n732")]
    V15(i32),
    #[static_xml(rename = "n579")]
    V16,
    #[static_xml(rename = "n426")]
    V17(i32),
    #[static_xml(rename = "n273")]
    V18,
    #[static_xml(rename = "n120")]
    V19(i32),
    #[static_xml(rename = "n976")]
    V20,
    #[static_xml(rename = "n823")]
    V21(i32),
    #[static_xml(rename = "n670")]
    V22,
    #[static_xml(rename = "n517")]
    V23(i32),
    #[static_xml(rename = "n364")]
    V24,
    #[static_xml(rename = "n211")]
    V25(i32),
    #[static_xml(rename = "n58")]
    V26,
    #[static_xml(rename = "n914")]
    V27(i32),
    #[static_xml(rename = "n761")]
    V28,
    #[static_xml(rename = "n608")]
    V29(i32),
    #[static_xml(rename = "n455")]
    V30,
    #[static_xml(rename = "n302")]
    V31(i32),
    #[static_xml(rename = "n149")]
    V32,
    #[static_xml(rename = "n1005")]
    V33(i32),
    #[static_xml(rename = "n852")]
    V34,
    #[static_xml(rename = "n699")]
    V35(i32),
    #[static_xml(rename = "n546")]
    V36,
    #[static_xml(rename = "n393")]
    V37(i32),
    #[static_xml(rename = "n240")]
    V38,
    #[static_xml(rename = "n87")]
    V39(i32),
    #[static_xml(rename = "n943")]
    V40,
    #[static_xml(rename = "n790")]
    V41(i32),
    #[static_xml(rename = "n637")]
    V42,
    #[static_xml(rename = "n484")]
    V43(i32),
    #[static_xml(rename = "n331")]
    V44,
    #[static_xml(rename = "n178")]
    V45(i32),
    #[static_xml(rename = "n25")]
    V46,
    #[static_xml(rename = "n881")]
    V47(i32),
    #[static_xml(rename = "n728")]
    V48,
    #[static_xml(rename = "n575")]
    V49(i32),
    #[static_xml(rename = "n422")]
    V50,
    #[static_xml(rename = "n269")]
    V51(i32),
    #[static_xml(rename = "n116")]
    V52,
    #[static_xml(rename = "n972")]
    V53(i32),
    #[static_xml(rename = "n819")]
    V54,
    #[static_xml(rename = "n666")]
    V55(i32),
    #[static_xml(rename = "n513")]
    V56,
    #[static_xml(rename = "n360")]
    V57(i32),
    #[static_xml(rename = "n207")]
    V58,
    #[static_xml(rename = "n54")]
    V59(i32),
    #[static_xml(rename = "n910")]
    V60,
    #[static_xml(rename = "n757")]
    V61(i32),
    #[static_xml(rename = "n604")]
    V62,
    #[static_xml(rename = "n451")]
    V63(i32),
    #[static_xml(rename = "n298")]
    V64,
    #[static_xml(rename = "n145")]
    V65(i32),
    #[static_xml(rename = "n1001")]
    V66,
    #[static_xml(rename = "n848")]
    V67(i32),
    #[static_xml(rename = "n695")]
    V68,
    #[static_xml(rename = "n542")]
    V69(i32),
    #[static_xml(rename = "n389")]
    V70,
    #[static_xml(rename = "n236")]
    V71(i32),
    #[static_xml(rename = "n83")]
    V72,
    #[static_xml(rename = "n939")]
    V73(i32),
    #[static_xml(rename = "n786")]
    V74,
    #[static_xml(rename = "n633")]
    V75(i32),
    #[static_xml(rename = "n480")]
    V76,
    #[static_xml(rename = "n327")]
    V77(i32),
    #[static_xml(rename = "n174")]
    V78,
    #[static_xml(rename = "n21")]
    V79(i32),
    #[static_xml(rename = "n877")]
    V80,
    #[static_xml(rename = "n724")]
    V81(i32),
    #[static_xml(rename = "n571")]
    V82,
    #[static_xml(rename = "n418")]
    V83(i32),
    #[static_xml(rename = "n265")]
    V84,
    #[static_xml(rename = "n112")]
    V85(i32),
    #[static_xml(rename = "n968")]
    V86,
    #[static_xml(rename = "n815")]
    V87(i32),
    #[static_xml(rename = "n662")]
    V88,
    #[static_xml(rename = "n509")]
    V89(i32),
    #[static_xml(rename = "n356")]
    V90,
    #[static_xml(rename = "n203")]
    V91(i32),
    #[static_xml(rename = "n50")]
    V92,
    #[static_xml(rename = "n906")]
    V93(i32),
    #[static_xml(rename = "n753")]
    V94,
    #[static_xml(rename = "n600")]
    V95(i32),
    #[static_xml(rename = "n447")]
    V96,
    #[static_xml(rename = "n294")]
    V97(i32),
    #[static_xml(rename = "n141")]
    V98,
    #[static_xml(rename = "n997")]
    V99(i32),
    #[static_xml(rename = "n844")]
    V100,
    #[static_xml(rename = "n691")]
    V101(i32),
    #[static_xml(rename = "n538")]
    V102,
    #[static_xml(rename = "n385")]
    V103(i32),
    #[static_xml(rename = "n232")]
    V104,
    #[static_xml(rename = "n79")]
    V105(i32),
    #[static_xml(rename = "n935")]
    V106,
    #[static_xml(rename = "n782")]
    V107(i32),
    #[static_xml(rename = "n629")]
    V108,
    #[static_xml(rename = "n476")]
    V109(i32),
    #[static_xml(rename = "n323")]
    V110,
    #[static_xml(rename = "n170")]
    V111(i32),
    #[static_xml(rename = "n17")]
    V112,
    #[static_xml(rename = "n873")]
    V113(i32),
    #[static_xml(rename = "n720")]
    V114,
    #[static_xml(rename = "n567")]
    V115(i32),
    #[static_xml(rename = "n414")]
    V116,
    #[static_xml(rename = "n261")]
    V117(i32),
    #[static_xml(rename = "n108")]
    V118,
    #[static_xml(rename = "n964")]
    V119(i32),
    #[static_xml(rename = "n811")]
    V120,
    #[static_xml(rename = "n658")]
    V121(i32),
    #[static_xml(rename = "n505")]
    V122,
    #[static_xml(rename = "n352")]
    V123(i32),
    #[static_xml(rename = "n199")]
    V124,
    #[static_xml(rename = "n46")]
    V125(i32),
    #[static_xml(rename = "n902")]
    V126,
    #[static_xml(rename = "n749")]
    V127(i32),
    #[static_xml(rename = "n596")]
    V128,
    #[static_xml(rename = "n443")]
    V129(i32),
    #[static_xml(rename = "n290")]
    V130,
    #[static_xml(rename = "n137")]
    V131(i32),
    #[static_xml(rename = "n993")]
    V132,
    #[static_xml(rename = "n840")]
    V133(i32),
    #[static_xml(rename = "n687")]
    V134,
    #[static_xml(rename = "n534")]
    V135(i32),
    #[static_xml(rename = "n381")]
    V136,
    #[static_xml(rename = "n228")]
    V137(i32),
    #[static_xml(rename = "n75")]
    V138,
    #[static_xml(rename = "n931")]
    V139(i32),
    #[static_xml(rename = "n778")]
    V140,
    #[static_xml(rename = "n625")]
    V141(i32),
    #[static_xml(rename = "n472")]
    V142,
    #[static_xml(rename = "n319")]
    V143(i32),
    #[static_xml(rename = "n166")]
    V144,
    #[static_xml(rename = "n13")]
    V145(i32),
    #[static_xml(rename = "n869")]
    V146,
    #[static_xml(rename = "n716")]
    V147(i32),
    #[static_xml(rename = "n563")]
    V148,
    #[static_xml(rename = "n410")]
    V149(i32),
    #[static_xml(rename = "n257")]
    V150,
    #[static_xml(rename = "n104")]
    V151(i32),
    #[static_xml(rename = "n960")]
    V152,
    #[static_xml(rename = "n807")]
    V153(i32),
    #[static_xml(rename = "n654")]
    V154,
    #[static_xml(rename = "n501")]
    V155(i32),
    #[static_xml(rename = "n348")]
    V156,
    #[static_xml(rename = "n195")]
    V157(i32),
    #[static_xml(rename = "n42")]
    V158,
    #[static_xml(rename = "n898")]
    V159(i32),
    #[static_xml(rename = "n745")]
    V160,
    #[static_xml(rename = "n592")]
    V161(i32),
    #[static_xml(rename = "n439")]
    V162,
    #[static_xml(rename = "n286")]
    V163(i32),
    #[static_xml(rename = "n133")]
    V164,
    #[static_xml(rename = "n989")]
    V165(i32),
    #[static_xml(rename = "n836")]
    V166,
    #[static_xml(rename = "n683")]
    V167(i32),
    #[static_xml(rename = "n530")]
    V168,
    #[static_xml(rename = "n377")]
    V169(i32),
    #[static_xml(rename = "n224")]
    V170,
    #[static_xml(rename = "n71")]
    V171(i32),
    #[static_xml(rename = "n927")]
    V172,
    #[static_xml(rename = "n774")]
    V173(i32),
    #[static_xml(rename = "n621")]
    V174,
    #[static_xml(rename = "n468")]
    V175(i32),
    #[static_xml(rename = "n315")]
    V176,
    #[static_xml(rename = "n162")]
    V177(i32),
    #[static_xml(rename = "n9")]
    V178,
    #[static_xml(rename = "n865")]
    V179(i32),
    #[static_xml(rename = "n712")]
    V180,
    #[static_xml(rename = "n559")]
    V181(i32),
    #[static_xml(rename = "n406")]
    V182,
    #[static_xml(rename = "n253")]
    V183(i32),
    #[static_xml(rename = "n100")]
    V184,
    #[static_xml(rename = "n956")]
    V185(i32),
    #[static_xml(rename = "n803")]
    V186,
    #[static_xml(rename = "n650")]
    V187(i32),
    #[static_xml(rename = "n497")]
    V188,
    #[static_xml(rename = "n344")]
    V189(i32),
    #[static_xml(rename = "n191")]
    V190,
    #[static_xml(rename = "n38")]
    V191(i32),
    #[static_xml(rename = "n894")]
    V192,
    #[static_xml(rename = "n741")]
    V193(i32),
    #[static_xml(rename = "n588")]
    V194,
    #[static_xml(rename = "n435")]
    V195(i32),
    #[static_xml(rename = "n282")]
    V196,
    #[static_xml(rename = "n129")]
    V197(i32),
    #[static_xml(rename = "n985")]
    V198,
    #[static_xml(rename = "n832")]
    V199(i32),
    #[static_xml(rename = "n679")]
    V200,
    #[static_xml(rename = "n526")]
    V201(i32),
    #[static_xml(rename = "n373")]
    V202,
    #[static_xml(rename = "n220")]
    V203(i32),
    #[static_xml(rename = "n67")]
    V204,
    #[static_xml(rename = "n923")]
    V205(i32),
    #[static_xml(rename = "n770")]
    V206,
    #[static_xml(rename = "n617")]
    V207(i32),
    #[static_xml(rename = "n464")]
    V208,
    #[static_xml(rename = "n311")]
    V209(i32),
    #[static_xml(rename = "n158")]
    V210,
    #[static_xml(rename = "n5")]
    V211(i32),
    #[static_xml(rename = "n861")]
    V212,
    #[static_xml(rename = "n708")]
    V213(i32),
    #[static_xml(rename = "n555")]
    V214,
    #[static_xml(rename = "n402")]
    V215(i32),
    #[static_xml(rename = "n249")]
    V216,
    #[static_xml(rename = "n96")]
    V217(i32),
    #[static_xml(rename = "n952")]
    V218,
    #[static_xml(rename = "n799")]
    V219(i32),
    #[static_xml(rename = "n646")]
    V220,
    #[static_xml(rename = "n493")]
    V221(i32),
    #[static_xml(rename = "n340")]
    V222,
    #[static_xml(rename = "n187")]
    V223(i32),
    #[static_xml(rename = "n34")]
    V224,
    #[static_xml(rename = "n890")]
    V225(i32),
    #[static_xml(rename = "n737")]
    V226,
    #[static_xml(rename = "n584")]
    V227(i32),
    #[static_xml(rename = "n431")]
    V228,
    #[static_xml(rename = "n278")]
    V229(i32),
    #[static_xml(rename = "n125")]
    V230,
    #[static_xml(rename = "n981")]
    V231(i32),
    #[static_xml(rename = "n828")]
    V232,
    #[static_xml(rename = "n675")]
    V233(i32),
    #[static_xml(rename = "n522")]
    V234,
    #[static_xml(rename = "n369")]
    V235(i32),
    #[static_xml(rename = "n216")]
    V236,
    #[static_xml(rename = "n63")]
    V237(i32),
    #[static_xml(rename = "n919")]
    V238,
    #[static_xml(rename = "n766")]
    V239(i32),
    #[static_xml(rename = "n613")]
    V240,
    #[static_xml(rename = "n460")]
    V241(i32),
    #[static_xml(rename = "n307")]
    V242,
    #[static_xml(rename = "n154")]
    V243(i32),
    #[static_xml(rename = "n1")]
    V244,
    #[static_xml(rename = "n857")]
    V245(i32),
    #[static_xml(rename = "n704")]
    V246,
    #[static_xml(rename = "n551")]
    V247(i32),
    #[static_xml(rename = "n398")]
    V248,
    #[static_xml(rename = "n245")]
    V249(i32),
    #[static_xml(rename = "n92")]
    V250,
    #[static_xml(rename = "n948")]
    V251(i32),
    #[static_xml(rename = "n795")]
    V252,
    #[static_xml(rename = "n642")]
    V253(i32),
    #[static_xml(rename = "n489")]
    V254,
    #[static_xml(rename = "n336")]
    V255(i32),
    #[static_xml(rename = "n183")]
    V256,
    #[static_xml(rename = "n30")]
    V257(i32),
    #[static_xml(rename = "n886")]
    V258,
    #[static_xml(rename = "n733")]
    V259(i32),
    #[static_xml(rename = "n580")]
    V260,
    #[static_xml(rename = "n427")]
    V261(i32),
    #[static_xml(rename = "n274")]
    V262,
    #[static_xml(rename = "n121")]
    V263(i32),
    #[static_xml(rename = "n977")]
    V264,
    #[static_xml(rename = "n824")]
    V265(i32),
    #[static_xml(rename = "n671")]
    V266,
    #[static_xml(rename = "n518")]
    V267(i32),
    #[static_xml(rename = "n365")]
    V268,
    #[static_xml(rename = "n212")]
    V269(i32),
    #[static_xml(rename = "n59")]
    V270,
    #[static_xml(rename = "n915")]
    V271(i32),
    #[static_xml(rename = "n762")]
    V272,
    #[static_xml(rename = "n609")]
    V273(i32),
    #[static_xml(rename = "n456")]
    V274,
    #[static_xml(rename = "n303")]
    V275(i32),
    #[static_xml(rename = "n150")]
    V276,
    #[static_xml(rename = "n1006")]
    V277(i32),
    #[static_xml(rename = "n853")]
    V278,
    #[static_xml(rename = "n700")]
    V279(i32),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO0_0 {
    #[static_xml(attribute)]
    pub only: String,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO0_1 {
    #[static_xml(attribute)]
    pub only: Option<String>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO0_2 {
    pub only: String,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO0_3 {
    pub only: Option<String>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO0_4 {
    pub only: Vec<String>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO0_5 {
    #[static_xml(attribute, default)]
    pub only: String,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO0_6 {
    #[static_xml(default)]
    pub only: String,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "t: URN:p")]
pub struct XO1_0 {
    #[static_xml(attribute)]
    pub only: bool,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "pp: urn:p")]
pub struct XO1_1 {
    #[static_xml(attribute)]
    pub only: Option<bool>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "pp: urn:p")]
pub struct XO1_2 {
    pub only: bool,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "t: URN:p")]
pub struct XO1_3 {
    pub only: Option<bool>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "t: URN:p")]
pub struct XO1_4 {
    pub only: Vec<bool>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "p: urn:p")]
pub struct XO1_5 {
    #[static_xml(attribute, default)]
    pub only: bool,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "t: URN:p")]
pub struct XO1_6 {
    #[static_xml(default)]
    pub only: bool,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "s: urn:p/", namespace = "q: urn:q")]
pub struct XO2_0 {
    #[static_xml(attribute)]
    pub only: i32,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "p: urn:p", namespace = "r: urn:r:")]
pub struct XO2_1 {
    #[static_xml(attribute)]
    pub only: Option<i32>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "pp: urn:p", namespace = "q: urn:q")]
pub struct XO2_2 {
    pub only: i32,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "s: urn:p/", namespace = "pp: urn:p")]
pub struct XO2_3 {
    pub only: Option<i32>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "r: urn:r:", namespace = "t: URN:p")]
pub struct XO2_4 {
    pub only: Vec<i32>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "pp: urn:p", namespace = "t: URN:p")]
pub struct XO2_5 {
    #[static_xml(attribute, default)]
    pub only: i32,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "p: urn:p", namespace = "s: urn:p/")]
pub struct XO2_6 {
    #[static_xml(default)]
    pub only: i32,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO3_0 {
    #[static_xml(attribute)]
    pub only: u64,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO3_1 {
    #[static_xml(attribute)]
    pub only: Option<u64>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO3_2 {
    pub only: u64,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO3_3 {
    pub only: Option<u64>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO3_4 {
    pub only: Vec<u64>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO3_5 {
    #[static_xml(attribute, default)]
    pub only: u64,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO3_6 {
    #[static_xml(default)]
    pub only: u64,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "p: urn:p")]
pub struct XO4_0 {
    #[static_xml(attribute)]
    pub only: f64,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "s: urn:p/")]
pub struct XO4_1 {
    #[static_xml(attribute)]
    pub only: Option<f64>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "t: URN:p")]
pub struct XO4_2 {
    pub only: f64,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "p: urn:p")]
pub struct XO4_3 {
    pub only: Option<f64>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "r: urn:r:")]
pub struct XO4_4 {
    pub only: Vec<f64>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "q: urn:q")]
pub struct XO4_5 {
    #[static_xml(attribute, default)]
    pub only: f64,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "p: urn:p")]
pub struct XO4_6 {
    #[static_xml(default)]
    pub only: f64,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "pp: urn:p", namespace = "p: urn:p")]
pub struct XO5_0 {
    #[static_xml(attribute)]
    pub only: Tracked,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "pp: urn:p", namespace = "p: urn:p")]
pub struct XO5_1 {
    #[static_xml(attribute)]
    pub only: Option<Tracked>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "t: URN:p", namespace = "s: urn:p/")]
pub struct XO5_2 {
    pub only: Tracked,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "t: URN:p", namespace = "pp: urn:p")]
pub struct XO5_3 {
    pub only: Option<Tracked>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "p: urn:p", namespace = "q: urn:q")]
pub struct XO5_4 {
    pub only: Vec<Tracked>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "r: urn:r:", namespace = "p: urn:p")]
pub struct XO5_5 {
    #[static_xml(attribute, default)]
    pub only: Tracked,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "pp: urn:p", namespace = "q: urn:q")]
pub struct XO5_6 {
    #[static_xml(default)]
    pub only: Tracked,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO6_0 {
    #[static_xml(attribute)]
    pub only: Color,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO6_1 {
    #[static_xml(attribute)]
    pub only: Option<Color>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO6_2 {
    pub only: Color,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO6_3 {
    pub only: Option<Color>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO6_4 {
    pub only: Vec<Color>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "r: urn:r:")]
pub struct XO7_0 {
    #[static_xml(attribute)]
    pub only: Size,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "s: urn:p/")]
pub struct XO7_1 {
    #[static_xml(attribute)]
    pub only: Option<Size>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "pp: urn:p")]
pub struct XO7_2 {
    pub only: Size,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "r: urn:r:")]
pub struct XO7_3 {
    pub only: Option<Size>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "t: URN:p")]
pub struct XO7_4 {
    pub only: Vec<Size>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "t: URN:p", namespace = "s: urn:p/")]
pub struct XO8_0 {
    #[static_xml(attribute)]
    pub only: ColorOrNum,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "p: urn:p", namespace = "q: urn:q")]
pub struct XO8_1 {
    #[static_xml(attribute)]
    pub only: Option<ColorOrNum>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "p: urn:p", namespace = "r: urn:r:")]
pub struct XO8_2 {
    pub only: ColorOrNum,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "r: urn:r:", namespace = "q: urn:q")]
pub struct XO8_3 {
    pub only: Option<ColorOrNum>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "t: URN:p", namespace = "s: urn:p/")]
pub struct XO8_4 {
    pub only: Vec<ColorOrNum>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO9_0 {
    #[static_xml(attribute)]
    pub only: Pair,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO9_1 {
    #[static_xml(attribute)]
    pub only: Option<Pair>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO9_2 {
    pub only: Pair,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO9_3 {
    pub only: Option<Pair>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XO9_4 {
    pub only: Vec<Pair>,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub enum XV0_0 {
    Only(i32),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "t: URN:p", namespace = "p: urn:p")]
pub struct XW0_0 {
    #[static_xml(flatten)]
    pub it: XV0_0,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "p: urn:p")]
pub enum XV0_1 {
    Only(Option<i32>),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "p: urn:p", namespace = "r: urn:r:", namespace = "s: urn:p/")]
pub struct XW0_1 {
    #[static_xml(flatten)]
    pub it: XV0_1,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "t: URN:p", namespace = "q: urn:q")]
pub enum XV0_2 {
    Only(Vec<i32>),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "s: urn:p/", namespace = "t: URN:p")]
pub struct XW0_2 {
    #[static_xml(flatten)]
    pub it: XV0_2,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub enum XV1_0 {
    Only(Color),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "q: urn:q", namespace = "r: urn:r:")]
pub struct XW1_0 {
    #[static_xml(flatten)]
    pub it: XV1_0,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "pp: urn:p")]
pub enum XV1_1 {
    Only(Option<Color>),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "q: urn:q", namespace = "s: urn:p/", namespace = "r: urn:r:")]
pub struct XW1_1 {
    #[static_xml(flatten)]
    pub it: XV1_1,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "p: urn:p", namespace = "t: URN:p")]
pub enum XV1_2 {
    Only(Vec<Color>),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "p: urn:p", namespace = "q: urn:q")]
pub struct XW1_2 {
    #[static_xml(flatten)]
    pub it: XV1_2,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub enum XV2_0 {
    Only(Plain),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "t: URN:p", namespace = "s: urn:p/")]
pub struct XW2_0 {
    #[static_xml(flatten)]
    pub it: XV2_0,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "t: URN:p")]
pub enum XV2_1 {
    Only(Option<Plain>),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "pp: urn:p", namespace = "r: urn:r:", namespace = "p: urn:p")]
pub struct XW2_1 {
    #[static_xml(flatten)]
    pub it: XV2_1,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "r: urn:r:", namespace = "t: URN:p")]
pub enum XV2_2 {
    Only(Vec<Plain>),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "q: urn:q", namespace = "p: urn:p")]
pub struct XW2_2 {
    #[static_xml(flatten)]
    pub it: XV2_2,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub enum XV3_0 {
    Only(Empty),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "pp: urn:p", namespace = "t: URN:p")]
pub struct XW3_0 {
    #[static_xml(flatten)]
    pub it: XV3_0,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "p: urn:p")]
pub enum XV3_1 {
    Only(Option<Empty>),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "p: urn:p", namespace = "pp: urn:p", namespace = "r: urn:r:")]
pub struct XW3_1 {
    #[static_xml(flatten)]
    pub it: XV3_1,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "s: urn:p/", namespace = "t: URN:p")]
pub enum XV3_2 {
    Only(Vec<Empty>),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "s: urn:p/", namespace = "p: urn:p")]
pub struct XW3_2 {
    #[static_xml(flatten)]
    pub it: XV3_2,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub enum XV4_0 {
    Only(Single),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "p: urn:p", namespace = "pp: urn:p")]
pub struct XW4_0 {
    #[static_xml(flatten)]
    pub it: XV4_0,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "s: urn:p/")]
pub enum XV4_1 {
    Only(Option<Single>),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "s: urn:p/", namespace = "p: urn:p", namespace = "t: URN:p")]
pub struct XW4_1 {
    #[static_xml(flatten)]
    pub it: XV4_1,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "s: urn:p/", namespace = "q: urn:q")]
pub enum XV4_2 {
    Only(Vec<Single>),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "q: urn:q", namespace = "p: urn:p")]
pub struct XW4_2 {
    #[static_xml(flatten)]
    pub it: XV4_2,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub enum XV5_0 {
    Only,
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
#[static_xml(namespace = "s: urn:p/", namespace = "t: URN:p")]
pub struct XW5_0 {
    #[static_xml(flatten)]
    pub it: XV5_0,
}

pub mod alpha {
    use super::*;
    #[derive(Debug, PartialEq, ParseText, ToText)]
    #[static_xml(mode = "restriction")]
    pub enum XT {
        #[static_xml(rename = "x")]
        X,
        #[static_xml(rename = "both")]
        Both,
        #[static_xml(rename = "z z")]
        Z,
    }
}

pub mod beta {
    use super::*;
    #[derive(Debug, PartialEq, ParseText, ToText)]
    #[static_xml(mode = "restriction", whitespace = "collapse")]
    pub enum XT {
        #[static_xml(rename = "y")]
        Y,
        #[static_xml(rename = "both")]
        Both,
        #[static_xml(rename = "z  z")]
        Z2,
    }
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union")]
pub enum XUSame {
    A(alpha::XT),
    B(beta::XT),
    N(i32),
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "collapse")]
pub enum XUSame2 {
    B(beta::XT),
    A(alpha::XT),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[allow(non_snake_case)]
pub struct XSSame {
    pub a: beta::XT,
    pub b: Option<alpha::XT>,
    #[static_xml(attribute)]
    pub c: alpha::XT,
    #[static_xml(attribute)]
    pub d: Option<beta::XT>,
}
