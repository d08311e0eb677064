// Written by tools/corpus.py.
use static_xml_derive::{Deserialize, Serialize};

pub const NAMES: [(&str, &str); 300] = [
    ("", "n0"),
    ("urn:a", "n0"),
    ("urn:b", "n0"),
    ("", "n550"),
    ("urn:a", "n550"),
    ("urn:b", "n244"),
    ("", "n244"),
    ("urn:a", "n244"),
    ("urn:b", "n794"),
    ("", "n794"),
    ("urn:a", "n488"),
    ("urn:b", "n488"),
    ("", "n488"),
    ("urn:a", "n29"),
    ("urn:b", "n29"),
    ("", "n732"),
    ("urn:a", "n732"),
    ("urn:b", "n732"),
    ("", "n273"),
    ("urn:a", "n273"),
    ("urn:b", "n976"),
    ("", "n976"),
    ("urn:a", "n976"),
    ("urn:b", "n517"),
    ("", "n517"),
    ("urn:a", "n211"),
    ("urn:b", "n211"),
    ("", "n211"),
    ("urn:a", "n761"),
    ("urn:b", "n761"),
    ("", "n455"),
    ("urn:a", "n455"),
    ("urn:b", "n455"),
    ("", "n1005"),
    ("urn:a", "n1005"),
    ("urn:b", "n699"),
    ("", "n699"),
    ("urn:a", "n699"),
    ("urn:b", "n240"),
    ("", "n240"),
    ("urn:a", "n943"),
    ("urn:b", "n943"),
    ("", "n943"),
    ("urn:a", "n484"),
    ("urn:b", "n484"),
    ("", "n178"),
    ("urn:a", "n178"),
    ("urn:b", "n178"),
    ("", "n728"),
    ("urn:a", "n728"),
    ("urn:b", "n422"),
    ("", "n422"),
    ("urn:a", "n422"),
    ("urn:b", "n972"),
    ("", "n972"),
    ("urn:a", "n666"),
    ("urn:b", "n666"),
    ("", "n666"),
    ("urn:a", "n207"),
    ("urn:b", "n207"),
    ("", "n910"),
    ("urn:a", "n910"),
    ("urn:b", "n910"),
    ("", "n451"),
    ("urn:a", "n451"),
    ("urn:b", "n145"),
    ("", "n145"),
    ("urn:a", "n145"),
    ("urn:b", "n695"),
    ("", "n695"),
    ("urn:a", "n389"),
    ("urn:b", "n389"),
    ("", "n389"),
    ("urn:a", "n939"),
    ("urn:b", "n939"),
    ("", "n633"),
    ("urn:a", "n633"),
    ("urn:b", "n633"),
    ("", "n174"),
    ("urn:a", "n174"),
    ("urn:b", "n877"),
    ("", "n877"),
    ("urn:a", "n877"),
    ("urn:b", "n418"),
    ("", "n418"),
    ("urn:a", "n112"),
    ("urn:b", "n112"),
    ("", "n112"),
    ("urn:a", "n662"),
    ("urn:b", "n662"),
    ("", "n356"),
    ("urn:a", "n356"),
    ("urn:b", "n356"),
    ("", "n906"),
    ("urn:a", "n906"),
    ("urn:b", "n600"),
    ("", "n600"),
    ("urn:a", "n600"),
    ("urn:b", "n141"),
    ("", "n141"),
    ("urn:a", "n844"),
    ("urn:b", "n844"),
    ("", "n844"),
    ("urn:a", "n385"),
    ("urn:b", "n385"),
    ("", "n79"),
    ("urn:a", "n79"),
    ("urn:b", "n79"),
    ("", "n629"),
    ("urn:a", "n629"),
    ("urn:b", "n323"),
    ("", "n323"),
    ("urn:a", "n323"),
    ("urn:b", "n873"),
    ("", "n873"),
    ("urn:a", "n567"),
    ("urn:b", "n567"),
    ("", "n567"),
    ("urn:a", "n108"),
    ("urn:b", "n108"),
    ("", "n811"),
    ("urn:a", "n811"),
    ("urn:b", "n811"),
    ("", "n352"),
    ("urn:a", "n352"),
    ("urn:b", "n46"),
    ("", "n46"),
    ("urn:a", "n46"),
    ("urn:b", "n596"),
    ("", "n596"),
    ("urn:a", "n290"),
    ("urn:b", "n290"),
    ("", "n290"),
    ("urn:a", "n840"),
    ("urn:b", "n840"),
    ("", "n534"),
    ("urn:a", "n534"),
    ("urn:b", "n534"),
    ("", "n75"),
    ("urn:a", "n75"),
    ("urn:b", "n778"),
    ("", "n778"),
    ("urn:a", "n778"),
    ("urn:b", "n319"),
    ("", "n319"),
    ("urn:a", "n13"),
    ("urn:b", "n13"),
    ("", "n13"),
    ("urn:a", "n563"),
    ("urn:b", "n563"),
    ("", "n257"),
    ("urn:a", "n257"),
    ("urn:b", "n257"),
    ("", "n807"),
    ("urn:a", "n807"),
    ("urn:b", "n501"),
    ("", "n501"),
    ("urn:a", "n501"),
    ("urn:b", "n42"),
    ("", "n42"),
    ("urn:a", "n745"),
    ("urn:b", "n745"),
    ("", "n745"),
    ("urn:a", "n286"),
    ("urn:b", "n286"),
    ("", "n989"),
    ("urn:a", "n989"),
    ("urn:b", "n989"),
    ("", "n530"),
    ("urn:a", "n530"),
    ("urn:b", "n224"),
    ("", "n224"),
    ("urn:a", "n224"),
    ("urn:b", "n774"),
    ("", "n774"),
    ("urn:a", "n468"),
    ("urn:b", "n468"),
    ("", "n468"),
    ("urn:a", "n9"),
    ("urn:b", "n9"),
    ("", "n712"),
    ("urn:a", "n712"),
    ("urn:b", "n712"),
    ("", "n253"),
    ("urn:a", "n253"),
    ("urn:b", "n956"),
    ("", "n956"),
    ("urn:a", "n956"),
    ("urn:b", "n497"),
    ("", "n497"),
    ("urn:a", "n191"),
    ("urn:b", "n191"),
    ("", "n191"),
    ("urn:a", "n741"),
    ("urn:b", "n741"),
    ("", "n435"),
    ("urn:a", "n435"),
    ("urn:b", "n435"),
    ("", "n985"),
    ("urn:a", "n985"),
    ("urn:b", "n679"),
    ("", "n679"),
    ("urn:a", "n679"),
    ("urn:b", "n220"),
    ("", "n220"),
    ("urn:a", "n923"),
    ("urn:b", "n923"),
    ("", "n923"),
    ("urn:a", "n464"),
    ("urn:b", "n464"),
    ("", "n158"),
    ("urn:a", "n158"),
    ("urn:b", "n158"),
    ("", "n708"),
    ("urn:a", "n708"),
    ("urn:b", "n402"),
    ("", "n402"),
    ("urn:a", "n402"),
    ("urn:b", "n952"),
    ("", "n952"),
    ("urn:a", "n646"),
    ("urn:b", "n646"),
    ("", "n646"),
    ("urn:a", "n187"),
    ("urn:b", "n187"),
    ("", "n890"),
    ("urn:a", "n890"),
    ("urn:b", "n890"),
    ("", "n431"),
    ("urn:a", "n431"),
    ("urn:b", "n125"),
    ("", "n125"),
    ("urn:a", "n125"),
    ("urn:b", "n675"),
    ("", "n675"),
    ("urn:a", "n369"),
    ("urn:b", "n369"),
    ("", "n369"),
    ("urn:a", "n919"),
    ("urn:b", "n919"),
    ("", "n613"),
    ("urn:a", "n613"),
    ("urn:b", "n613"),
    ("", "n154"),
    ("urn:a", "n154"),
    ("urn:b", "n857"),
    ("", "n857"),
    ("urn:a", "n857"),
    ("urn:b", "n398"),
    ("", "n398"),
    ("urn:a", "n92"),
    ("urn:b", "n92"),
    ("", "n92"),
    ("urn:a", "n642"),
    ("urn:b", "n642"),
    ("", "n336"),
    ("urn:a", "n336"),
    ("urn:b", "n336"),
    ("", "n886"),
    ("urn:a", "n886"),
    ("urn:b", "n580"),
    ("", "n580"),
    ("urn:a", "n580"),
    ("urn:b", "n121"),
    ("", "n121"),
    ("urn:a", "n824"),
    ("urn:b", "n824"),
    ("", "n824"),
    ("urn:a", "n365"),
    ("urn:b", "n365"),
    ("", "n59"),
    ("urn:a", "n59"),
    ("urn:b", "n59"),
    ("", "n609"),
    ("urn:a", "n609"),
    ("urn:b", "n303"),
    ("", "n303"),
    ("urn:a", "n303"),
    ("urn:b", "n853"),
    ("", "n853"),
    ("urn:a", "n547"),
    ("urn:b", "n547"),
    ("", "n547"),
    ("urn:a", "n88"),
    ("urn:b", "n88"),
    ("", "n791"),
    ("urn:a", "n791"),
    ("urn:b", "n791"),
    ("", "n332"),
    ("urn:a", "n332"),
    ("urn:b", "n26"),
    ("", "n26"),
    ("urn:a", "n26"),
    ("urn:b", "n576"),
    ("", "n576"),
    ("urn:a", "n270"),
    ("urn:b", "n270"),
    ("", "n270"),
    ("urn:a", "n820"),
    ("urn:b", "n820"),
];
#[derive(Deserialize, Serialize)]
#[static_xml(namespace = "a: urn:a", namespace = "b: urn:b")]
pub struct Wide {
    #[static_xml(attribute, rename = "n0")]
    pub a0: Option<u32>,
    #[static_xml(rename = "n0")]
    pub e0: Option<u32>,
    #[static_xml(attribute, rename = "n0", prefix = "a")]
    pub a1: Option<u32>,
    #[static_xml(rename = "n0", prefix = "a")]
    pub e1: Option<u32>,
    #[static_xml(attribute, rename = "n0", prefix = "b")]
    pub a2: Option<u32>,
    #[static_xml(rename = "n0", prefix = "b")]
    pub e2: Option<u32>,
    #[static_xml(attribute, rename = "n550")]
    pub a3: Option<u32>,
    #[static_xml(rename = "n550")]
    pub e3: Option<u32>,
    #[static_xml(attribute, rename = "n550", prefix = "a")]
    pub a4: Option<u32>,
    #[static_xml(rename = "n550", prefix = "a")]
    pub e4: Option<u32>,
    #[static_xml(attribute, rename = "n244", prefix = "b")]
    pub a5: Option<u32>,
    #[static_xml(rename = "n244", prefix = "b")]
    pub e5: Option<u32>,
    #[static_xml(attribute, rename = "n244")]
    pub a6: Option<u32>,
    #[static_xml(rename = "n244")]
    pub e6: Option<u32>,
    #[static_xml(attribute, rename = "n244", prefix = "a")]
    pub a7: Option<u32>,
    #[static_xml(rename = "n244", prefix = "a")]
    pub e7: Option<u32>,
    #[static_xml(attribute, rename = "n794", prefix = "b")]
    pub a8: Option<u32>,
    #[static_xml(rename = "n794", prefix = "b")]
    pub e8: Option<u32>,
    #[static_xml(attribute, rename = "n794")]
    pub a9: Option<u32>,
    #[static_xml(rename = "n794")]
    pub e9: Option<u32>,
    #[static_xml(attribute, rename = "n488", prefix = "a")]
    pub a10: Option<u32>,
    #[static_xml(rename = "n488", prefix = "a")]
    pub e10: Option<u32>,
    #[static_xml(attribute, rename = "n488", prefix = "b")]
    pub a11: Option<u32>,
    #[static_xml(rename = "n488", prefix = "b")]
    pub e11: Option<u32>,
    #[static_xml(attribute, rename = "n488")]
    pub a12: Option<u32>,
    #[static_xml(rename = "n488")]
    pub e12: Option<u32>,
    #[static_xml(attribute, rename = "n29", prefix = "a")]
    pub a13: Option<u32>,
    #[static_xml(rename = "n29", prefix = "a")]
    pub e13: Option<u32>,
    #[static_xml(attribute, rename = "n29", prefix = "b")]
    pub a14: Option<u32>,
    #[static_xml(rename = "n29", prefix = "b")]
    pub e14: Option<u32>,
    #[static_xml(attribute, rename = "n732")]
    pub a15: Option<u32>,
    #[static_xml(rename = "n732")]
    pub e15: Option<u32>,
    #[static_xml(attribute, rename = "n732", prefix = "a")]
    pub a16: Option<u32>,
    #[static_xml(rename = "n732", prefix = "a")]
    pub e16: Option<u32>,
    #[static_xml(attribute, rename = "n732", prefix = "b")]
    pub a17: Option<u32>,
    #[static_xml(rename = "n732", prefix = "b")]
    pub e17: Option<u32>,
    #[static_xml(attribute, rename = "n273")]
    pub a18: Option<u32>,
    #[static_xml(rename = "n273")]
    pub e18: Option<u32>,
    #[static_xml(attribute, rename = "n273", prefix = "a")]
    pub a19: Option<u32>,
    #[static_xml(rename = "n273", prefix = "a")]
    pub e19: Option<u32>,
    #[static_xml(attribute, rename = "n976", prefix = "b")]
    pub a20: Option<u32>,
    #[static_xml(rename = "n976", prefix = "b")]
    pub e20: Option<u32>,
    #[static_xml(attribute, rename = "n976")]
    pub a21: Option<u32>,
    #[static_xml(rename = "n976")]
    pub e21: Option<u32>,
    #[static_xml(attribute, rename = "n976", prefix = "a")]
    pub a22: Option<u32>,
    #[static_xml(rename = "n976", prefix = "a")]
    pub e22: Option<u32>,
    #[static_xml(attribute, rename = "n517", prefix = "b")]
    pub a23: Option<u32>,
    #[static_xml(rename = "n517", prefix = "b")]
    pub e23: Option<u32>,
    #[static_xml(attribute, rename = "n517")]
    pub a24: Option<u32>,
    #[static_xml(rename = "n517")]
    pub e24: Option<u32>,
    #[static_xml(attribute, rename = "n211", prefix = "a")]
    pub a25: Option<u32>,
    #[static_xml(rename = "n211", prefix = "a")]
    pub e25: Option<u32>,
    #[static_xml(attribute, rename = "n211", prefix = "b")]
    pub a26: Option<u32>,
    #[static_xml(rename = "n211", prefix = "b")]
    pub e26: Option<u32>,
    #[static_xml(attribute, rename = "n211")]
    pub a27: Option<u32>,
    #[static_xml(rename = "n211")]
    pub e27: Option<u32>,
    #[static_xml(attribute, rename = "n761", prefix = "a")]
    pub a28: Option<u32>,
    #[static_xml(rename = "n761", prefix = "a")]
    pub e28: Option<u32>,
    #[static_xml(attribute, rename = "n761", prefix = "b")]
    pub a29: Option<u32>,
    #[static_xml(rename = "n761", prefix = "b")]
    pub e29: Option<u32>,
    #[static_xml(attribute, rename = "n455")]
    pub a30: Option<u32>,
    #[static_xml(rename = "n455")]
    pub e30: Option<u32>,
    #[static_xml(attribute, rename = "n455", prefix = "a")]
    pub a31: Option<u32>,
    #[static_xml(rename = "n455", prefix = "a")]
    pub e31: Option<u32>,
    #[static_xml(attribute, rename = "n455", prefix = "b")]
    pub a32: Option<u32>,
    #[static_xml(rename = "n455", prefix = "b")]
    pub e32: Option<u32>,
    #[static_xml(attribute, rename = "n1005")]
    pub a33: Option<u32>,
    #[static_xml(rename = "n1005")]
    pub e33: Option<u32>,
    #[static_xml(attribute, rename = "n1005", prefix = "a")]
    pub a34: Option<u32>,
    #[static_xml(rename = "n1005", prefix = "a")]
    pub e34: Option<u32>,
    #[static_xml(attribute, rename = "n699", prefix = "b")]
    pub a35: Option<u32>,
    #[static_xml(rename = "n699", prefix = "b")]
    pub e35: Option<u32>,
    #[static_xml(attribute, rename = "n699")]
    pub a36: Option<u32>,
    #[static_xml(rename = "n699")]
    pub e36: Option<u32>,
    #[static_xml(attribute, rename = "n699", prefix = "a")]
    pub a37: Option<u32>,
    #[static_xml(rename = "n699", prefix = "a")]
    pub e37: Option<u32>,
    #[static_xml(attribute, rename = "n240", prefix = "b")]
    pub a38: Option<u32>,
    #[static_xml(rename = "n240", prefix = "b")]
    pub e38: Option<u32>,
    #[static_xml(attribute, rename = "n240")]
    pub a39: Option<u32>,
    #[static_xml(rename = "n240")]
    pub e39: Option<u32>,
    #[static_xml(attribute, rename = "n943", prefix = "a")]
    pub a40: Option<u32>,
    #[static_xml(rename = "n943", prefix = "a")]
    pub e40: Option<u32>,
    #[static_xml(attribute, rename = "n943", prefix = "b")]
    pub a41: Option<u32>,
    #[static_xml(rename = "n943", prefix = "b")]
    pub e41: Option<u32>,
    #[static_xml(attribute, rename = "n943")]
    pub a42: Option<u32>,
    #[static_xml(rename = "n943")]
    pub e42: Option<u32>,
    #[static_xml(attribute, rename = "n484", prefix = "a")]
    pub a43: Option<u32>,
    #[static_xml(rename = "n484", prefix = "a")]
    pub e43: Option<u32>,
    #[static_xml(attribute, rename = "n484", prefix = "b")]
    pub a44: Option<u32>,
    #[static_xml(rename = "n484", prefix = "b")]
    pub e44: Option<u32>,
    #[static_xml(attribute, rename = "n178")]
    pub a45: Option<u32>,
    #[static_xml(rename = "n178")]
    pub e45: Option<u32>,
    #[static_xml(attribute, rename = "n178", prefix = "a")]
    pub a46: Option<u32>,
    #[static_xml(rename = "n178", prefix = "a")]
    pub e46: Option<u32>,
    #[static_xml(attribute, rename = "n178", prefix = "b")]
    pub a47: Option<u32>,
    #[static_xml(rename = "n178", prefix = "b")]
    pub e47: Option<u32>,
    #[static_xml(attribute, rename = "n728")]
    pub a48: Option<u32>,
    #[static_xml(rename = "n728")]
    pub e48: Option<u32>,
    #[static_xml(attribute, rename = "n728", prefix = "a")]
    pub a49: Option<u32>,
    #[static_xml(rename = "n728", prefix = "a")]
    pub e49: Option<u32>,
    #[static_xml(attribute, rename = "n422", prefix = "b")]
    pub a50: Option<u32>,
    #[static_xml(rename = "n422", prefix = "b")]
    pub e50: Option<u32>,
    #[static_xml(attribute, rename = "n422")]
    pub a51: Option<u32>,
    #[static_xml(rename = "n422")]
    pub e51: Option<u32>,
    #[static_xml(attribute, rename = "n422", prefix = "a")]
    pub a52: Option<u32>,
    #[static_xml(rename = "n422", prefix = "a")]
    pub e52: Option<u32>,
    #[static_xml(attribute, rename = "n972", prefix = "b")]
    pub a53: Option<u32>,
    #[static_xml(rename = "n972", prefix = "b")]
    pub e53: Option<u32>,
    #[static_xml(attribute, rename = "n972")]
    pub a54: Option<u32>,
    #[static_xml(rename = "n972")]
    pub e54: Option<u32>,
    #[static_xml(attribute, rename = "n666", prefix = "a")]
    pub a55: Option<u32>,
    #[static_xml(rename = "n666", prefix = "a")]
    pub e55: Option<u32>,
    #[static_xml(attribute, rename = "n666", prefix = "b")]
    pub a56: Option<u32>,
    #[static_xml(rename = "n666", prefix = "b")]
    pub e56: Option<u32>,
    #[static_xml(attribute, rename = "n666")]
    pub a57: Option<u32>,
    #[static_xml(rename = "n666")]
    pub e57: Option<u32>,
    #[static_xml(attribute, rename = "n207", prefix = "a")]
    pub a58: Option<u32>,
    #[static_xml(rename = "n207", prefix = "a")]
    pub e58: Option<u32>,
    #[static_xml(attribute, rename = "n207", prefix = "b")]
    pub a59: Option<u32>,
    #[static_xml(rename = "n207", prefix = "b")]
    pub e59: Option<u32>,
    #[static_xml(attribute, rename = "n910")]
    pub a60: Option<u32>,
    #[static_xml(rename = "n910")]
    pub e60: Option<u32>,
    #[static_xml(attribute, rename = "n910", prefix = "a")]
    pub a61: Option<u32>,
    #[static_xml(rename = "n910", prefix = "a")]
    pub e61: Option<u32>,
    #[static_xml(attribute, rename = "n910", prefix = "b")]
    pub a62: Option<u32>,
    #[static_xml(rename = "n910", prefix = "b")]
    pub e62: Option<u32>,
    #[static_xml(attribute, rename = "n451")]
    pub a63: Option<u32>,
    #[static_xml(rename = "n451")]
    pub e63: Option<u32>,
    #[static_xml(attribute, rename = "n451", prefix = "a")]
    pub a64: Option<u32>,
    #[static_xml(rename = "n451", prefix = "a")]
    pub e64: Option<u32>,
    #[static_xml(attribute, rename = "n145", prefix = "b")]
    pub a65: Option<u32>,
    #[static_xml(rename = "n145", prefix = "b")]
    pub e65: Option<u32>,
    #[static_xml(attribute, rename = "n145")]
    pub a66: Option<u32>,
    #[static_xml(rename = "n145")]
    pub e66: Option<u32>,
    #[static_xml(attribute, rename = "n145", prefix = "a")]
    pub a67: Option<u32>,
    #[static_xml(rename = "n145", prefix = "a")]
    pub e67: Option<u32>,
    #[static_xml(attribute, rename = "n695", prefix = "b")]
    pub a68: Option<u32>,
    #[static_xml(rename = "n695", prefix = "b")]
    pub e68: Option<u32>,
    #[static_xml(attribute, rename = "n695")]
    pub a69: Option<u32>,
    #[static_xml(rename = "n695")]
    pub e69: Option<u32>,
    #[static_xml(attribute, rename = "n389", prefix = "a")]
    pub a70: Option<u32>,
    #[static_xml(rename = "n389", prefix = "a")]
    pub e70: Option<u32>,
    #[static_xml(attribute, rename = "n389", prefix = "b")]
    pub a71: Option<u32>,
    #[static_xml(rename = "n389", prefix = "b")]
    pub e71: Option<u32>,
    #[static_xml(attribute, rename = "n389")]
    pub a72: Option<u32>,
    #[static_xml(rename = "n389")]
    pub e72: Option<u32>,
    #[static_xml(attribute, rename = "n939", prefix = "a")]
    pub a73: Option<u32>,
    #[static_xml(rename = "n939", prefix = "a")]
    pub e73: Option<u32>,
    #[static_xml(attribute, rename = "n939", prefix = "b")]
    pub a74: Option<u32>,
    #[static_xml(rename = "n939", prefix = "b")]
    pub e74: Option<u32>,
    #[static_xml(attribute, rename = "n633")]
    pub a75: Option<u32>,
    #[static_xml(rename = "n633")]
    pub e75: Option<u32>,
    #[static_xml(attribute, rename = "n633", prefix = "a")]
    pub a76: Option<u32>,
    #[static_xml(rename = "n633", prefix = "a")]
    pub e76: Option<u32>,
    #[static_xml(attribute, rename = "n633", prefix = "b")]
    pub a77: Option<u32>,
    #[static_xml(rename = "n633", prefix = "b")]
    pub e77: Option<u32>,
    #[static_xml(attribute, rename = "n174")]
    pub a78: Option<u32>,
    #[static_xml(rename = "n174")]
    pub e78: Option<u32>,
    #[static_xml(attribute, rename = "n174", prefix = "a")]
    pub a79: Option<u32>,
    #[static_xml(rename = "n174", prefix = "a")]
    pub e79: Option<u32>,
    #[static_xml(attribute, rename = "n877", prefix = "b")]
    pub a80: Option<u32>,
    #[static_xml(rename = "n877", prefix = "b")]
    pub e80: Option<u32>,
    #[static_xml(attribute, rename = "n877")]
    pub a81: Option<u32>,
    #[static_xml(rename = "n877")]
    pub e81: Option<u32>,
    #[static_xml(attribute, rename = "n877", prefix = "a")]
    pub a82: Option<u32>,
    #[static_xml(rename = "n877", prefix = "a")]
    pub e82: Option<u32>,
    #[static_xml(attribute, rename = "n418", prefix = "b")]
    pub a83: Option<u32>,
    #[static_xml(rename = "n418", prefix = "b")]
    pub e83: Option<u32>,
    #[static_xml(attribute, rename = "n418")]
    pub a84: Option<u32>,
    #[static_xml(rename = "n418")]
    pub e84: Option<u32>,
    #[static_xml(attribute, rename = "n112", prefix = "a")]
    pub a85: Option<u32>,
    #[static_xml(rename = "n112", prefix = "a")]
    pub e85: Option<u32>,
    #[static_xml(attribute, rename = "n112", prefix = "b")]
    pub a86: Option<u32>,
    #[static_xml(rename = "n112", prefix = "b")]
    pub e86: Option<u32>,
    #[static_xml(attribute, rename = "n112")]
    pub a87: Option<u32>,
    #[static_xml(rename = "n112")]
    pub e87: Option<u32>,
    #[static_xml(attribute, rename = "n662", prefix = "a")]
    pub a88: Option<u32>,
    #[static_xml(rename = "n662", prefix = "a")]
    pub e88: Option<u32>,
    #[static_xml(attribute, rename = "n662", prefix = "b")]
    pub a89: Option<u32>,
    #[static_xml(rename = "n662", prefix = "b")]
    pub e89: Option<u32>,
    #[static_xml(attribute, rename = "n356")]
    pub a90: Option<u32>,
    #[static_xml(rename = "n356")]
    pub e90: Option<u32>,
    #[static_xml(attribute, rename = "n356", prefix = "a")]
    pub a91: Option<u32>,
    #[static_xml(rename = "n356", prefix = "a")]
    pub e91: Option<u32>,
    #[static_xml(attribute, rename = "n356", prefix = "b")]
    pub a92: Option<u32>,
    #[static_xml(rename = "n356", prefix = "b")]
    pub e92: Option<u32>,
    #[static_xml(attribute, rename = "n906")]
    pub a93: Option<u32>,
    #[static_xml(rename = "n906")]
    pub e93: Option<u32>,
    #[static_xml(attribute, rename = "n906", prefix = "a")]
    pub a94: Option<u32>,
    #[static_xml(rename = "n906", prefix = "a")]
    pub e94: Option<u32>,
    #[static_xml(attribute, rename = "n600", prefix = "b")]
    pub a95: Option<u32>,
    #[static_xml(rename = "n600", prefix = "b")]
    pub e95: Option<u32>,
    #[static_xml(attribute, rename = "n600")]
    pub a96: Option<u32>,
    #[static_xml(rename = "n600")]
    pub e96: Option<u32>,
    #[static_xml(attribute, rename = "n600", prefix = "a")]
    pub a97: Option<u32>,
    #[static_xml(rename = "n600", prefix = "a")]
    pub e97: Option<u32>,
    #[static_xml(attribute, rename = "n141", prefix = "b")]
    pub a98: Option<u32>,
    #[static_xml(rename = "n141", prefix = "b")]
    pub e98: Option<u32>,
    #[static_xml(attribute, rename = "n141")]
    pub a99: Option<u32>,
    #[static_xml(rename = "n141")]
    pub e99: Option<u32>,
    #[static_xml(attribute, rename = "n844", prefix = "a")]
    pub a100: Option<u32>,
    #[static_xml(rename = "n844", prefix = "a")]
    pub e100: Option<u32>,
    #[static_xml(attribute, rename = "n844", prefix = "b")]
    pub a101: Option<u32>,
    #[static_xml(rename = "n844", prefix = "b")]
    pub e101: Option<u32>,
    #[static_xml(attribute, rename = "n844")]
    pub a102: Option<u32>,
    #[static_xml(rename = "n844")]
    pub e102: Option<u32>,
    #[static_xml(attribute, rename = "n385", prefix = "a")]
    pub a103: Option<u32>,
    #[static_xml(rename = "n385", prefix = "a")]
    pub e103: Option<u32>,
    #[static_xml(attribute, rename = "n385", prefix = "b")]
    pub a104: Option<u32>,
    #[static_xml(rename = "n385", prefix = "b")]
    pub e104: Option<u32>,
    #[static_xml(attribute, rename = "n79")]
    pub a105: Option<u32>,
    #[static_xml(rename = "n79")]
    pub e105: Option<u32>,
    #[static_xml(attribute, rename = "n79", prefix = "a")]
    pub a106: Option<u32>,
    #[static_xml(rename = "n79", prefix = "a")]
    pub e106: Option<u32>,
    #[static_xml(attribute, rename = "n79", prefix = "b")]
    pub a107: Option<u32>,
    #[static_xml(rename = "n79", prefix = "b")]
    pub e107: Option<u32>,
    #[static_xml(attribute, rename = "n629")]
    pub a108: Option<u32>,
    #[static_xml(rename = "n629")]
    pub e108: Option<u32>,
    #[static_xml(attribute, rename = "n629", prefix = "a")]
    pub a109: Option<u32>,
    #[static_xml(rename = "n629", prefix = "a")]
    pub e109: Option<u32>,
    #[static_xml(attribute, rename = "n323", prefix = "b")]
    pub a110: Option<u32>,
    #[static_xml(rename = "n323", prefix = "b")]
    pub e110: Option<u32>,
    #[static_xml(attribute, rename = "n323")]
    pub a111: Option<u32>,
    #[static_xml(rename = "n323")]
    pub e111: Option<u32>,
    #[static_xml(attribute, rename = "n323", prefix = "a")]
    pub a112: Option<u32>,
    #[static_xml(rename = "n323", prefix = "a")]
    pub e112: Option<u32>,
    #[static_xml(attribute, rename = "n873", prefix = "b")]
    pub a113: Option<u32>,
    #[static_xml(rename = "n873", prefix = "b")]
    pub e113: Option<u32>,
    #[static_xml(attribute, rename = "n873")]
    pub a114: Option<u32>,
    #[static_xml(rename = "n873")]
    pub e114: Option<u32>,
    #[static_xml(attribute, rename = "n567", prefix = "a")]
    pub a115: Option<u32>,
    #[static_xml(rename = "n567", prefix = "a")]
    pub e115: Option<u32>,
    #[static_xml(attribute, rename = "n567", prefix = "b")]
    pub a116: Option<u32>,
    #[static_xml(rename = "n567", prefix = "b")]
    pub e116: Option<u32>,
    #[static_xml(attribute, rename = "n567")]
    pub a117: Option<u32>,
    #[static_xml(rename = "n567")]
    pub e117: Option<u32>,
    #[static_xml(attribute, rename = "n108", prefix = "a")]
    pub a118: Option<u32>,
    #[static_xml(rename = "n108", prefix = "a")]
    pub e118: Option<u32>,
    #[static_xml(attribute, rename = "n108", prefix = "b")]
    pub a119: Option<u32>,
    #[static_xml(rename = "n108", prefix = "b")]
    pub e119: Option<u32>,
    #[static_xml(attribute, rename = "n811")]
    pub a120: Option<u32>,
    #[static_xml(rename = "n811")]
    pub e120: Option<u32>,
    #[static_xml(attribute, rename = "n811", prefix = "a")]
    pub a121: Option<u32>,
    #[static_xml(rename = "n811", prefix = "a")]
    pub e121: Option<u32>,
    #[static_xml(attribute, rename = "n811", prefix = "b")]
    pub a122: Option<u32>,
    #[static_xml(rename = "n811", prefix = "b")]
    pub e122: Option<u32>,
    #[static_xml(attribute, rename = "n352")]
    pub a123: Option<u32>,
    #[static_xml(rename = "n352")]
    pub e123: Option<u32>,
    #[static_xml(attribute, rename = "n352", prefix = "a")]
    pub a124: Option<u32>,
    #[static_xml(rename = "n352", prefix = "a")]
    pub e124: Option<u32>,
    #[static_xml(attribute, rename = "n46", prefix = "b")]
    pub a125: Option<u32>,
    #[static_xml(rename = "n46", prefix = "b")]
    pub e125: Option<u32>,
    #[static_xml(attribute, rename = "n46")]
    pub a126: Option<u32>,
    #[static_xml(rename = "n46")]
    pub e126: Option<u32>,
    #[static_xml(attribute, rename = "n46", prefix = "a")]
    pub a127: Option<u32>,
    #[static_xml(rename = "n46", prefix = "a")]
    pub e127: Option<u32>,
    #[static_xml(attribute, rename = "n596", prefix = "b")]
    pub a128: Option<u32>,
    #[static_xml(rename = "n596", prefix = "b")]
    pub e128: Option<u32>,
    #[static_xml(attribute, rename = "n596")]
    pub a129: Option<u32>,
    #[static_xml(rename = "n596")]
    pub e129: Option<u32>,
    #[static_xml(attribute, rename = "n290", prefix = "a")]
    pub a130: Option<u32>,
    #[static_xml(rename = "n290", prefix = "a")]
    pub e130: Option<u32>,
    #[static_xml(attribute, rename = "n290", prefix = "b")]
    pub a131: Option<u32>,
    #[static_xml(rename = "n290", prefix = "b")]
    pub e131: Option<u32>,
    #[static_xml(attribute, rename = "n290")]
    pub a132: Option<u32>,
    #[static_xml(rename = "n290")]
    pub e132: Option<u32>,
    #[static_xml(attribute, rename = "n840", prefix = "a")]
    pub a133: Option<u32>,
    #[static_xml(rename = "n840", prefix = "a")]
    pub e133: Option<u32>,
    #[static_xml(attribute, rename = "n840", prefix = "b")]
    pub a134: Option<u32>,
    #[static_xml(rename = "n840", prefix = "b")]
    pub e134: Option<u32>,
    #[static_xml(attribute, rename = "n534")]
    pub a135: Option<u32>,
    #[static_xml(rename = "n534")]
    pub e135: Option<u32>,
    #[static_xml(attribute, rename = "n534", prefix = "a")]
    pub a136: Option<u32>,
    #[static_xml(rename = "n534", prefix = "a")]
    pub e136: Option<u32>,
    #[static_xml(attribute, rename = "n534", prefix = "b")]
    pub a137: Option<u32>,
    #[static_xml(rename = "n534", prefix = "b")]
    pub e137: Option<u32>,
    #[static_xml(attribute, rename = "n75")]
    pub a138: Option<u32>,
    #[static_xml(rename = "n75")]
    pub e138: Option<u32>,
    #[static_xml(attribute, rename = "n75", prefix = "a")]
    pub a139: Option<u32>,
    #[static_xml(rename = "n75", prefix = "a")]
    pub e139: Option<u32>,
    #[static_xml(attribute, rename = "n778", prefix = "b")]
    pub a140: Option<u32>,
    #[static_xml(rename = "n778", prefix = "b")]
    pub e140: Option<u32>,
    #[static_xml(attribute, rename = "n778")]
    pub a141: Option<u32>,
    #[static_xml(rename = "n778")]
    pub e141: Option<u32>,
    #[static_xml(attribute, rename = "n778", prefix = "a")]
    pub a142: Option<u32>,
    #[static_xml(rename = "n778", prefix = "a")]
    pub e142: Option<u32>,
    #[static_xml(attribute, rename = "n319", prefix = "b")]
    pub a143: Option<u32>,
    #[static_xml(rename = "n319", prefix = "b")]
    pub e143: Option<u32>,
    #[static_xml(attribute, rename = "n319")]
    pub a144: Option<u32>,
    #[static_xml(rename = "n319")]
    pub e144: Option<u32>,
    #[static_xml(attribute, rename = "n13", prefix = "a")]
    pub a145: Option<u32>,
    #[static_xml(rename = "n13", prefix = "a")]
    pub e145: Option<u32>,
    #[static_xml(attribute, rename = "n13", prefix = "b")]
    pub a146: Option<u32>,
    #[static_xml(rename = "n13", prefix = "b")]
    pub e146: Option<u32>,
    #[static_xml(attribute, rename = "n13")]
    pub a147: Option<u32>,
    #[static_xml(rename = "n13")]
    pub e147: Option<u32>,
    #[static_xml(attribute, rename = "n563", prefix = "a")]
    pub a148: Option<u32>,
    #[static_xml(rename = "n563", prefix = "a")]
    pub e148: Option<u32>,
    #[static_xml(attribute, rename = "n563", prefix = "b")]
    pub a149: Option<u32>,
    #[static_xml(rename = "n563", prefix = "b")]
    pub e149: Option<u32>,
    #[static_xml(attribute, rename = "n257")]
    pub a150: Option<u32>,
    #[static_xml(rename = "n257")]
    pub e150: Option<u32>,
    #[static_xml(attribute, rename = "n257", prefix = "a")]
    pub a151: Option<u32>,
    #[static_xml(rename = "n257", prefix = "a")]
    pub e151: Option<u32>,
    #[static_xml(attribute, rename = "n257", prefix = "b")]
    pub a152: Option<u32>,
    #[static_xml(rename = "n257", prefix = "b")]
    pub e152: Option<u32>,
    #[static_xml(attribute, rename = "n807")]
    pub a153: Option<u32>,
    #[static_xml(rename = "n807")]
    pub e153: Option<u32>,
    #[static_xml(attribute, rename = "n807", prefix = "a")]
    pub a154: Option<u32>,
    #[static_xml(rename = "n807", prefix = "a")]
    pub e154: Option<u32>,
    #[static_xml(attribute, rename = "n501", prefix = "b")]
    pub a155: Option<u32>,
    #[static_xml(rename = "n501", prefix = "b")]
    pub e155: Option<u32>,
    #[static_xml(attribute, rename = "n501")]
    pub a156: Option<u32>,
    #[static_xml(rename = "n501")]
    pub e156: Option<u32>,
    #[static_xml(attribute, rename = "n501", prefix = "a")]
    pub a157: Option<u32>,
    #[static_xml(rename = "n501", prefix = "a")]
    pub e157: Option<u32>,
    #[static_xml(attribute, rename = "n42", prefix = "b")]
    pub a158: Option<u32>,
    #[static_xml(rename = "n42", prefix = "b")]
    pub e158: Option<u32>,
    #[static_xml(attribute, rename = "n42")]
    pub a159: Option<u32>,
    #[static_xml(rename = "n42")]
    pub e159: Option<u32>,
    #[static_xml(attribute, rename = "n745", prefix = "a")]
    pub a160: Option<u32>,
    #[static_xml(rename = "n745", prefix = "a")]
    pub e160: Option<u32>,
    #[static_xml(attribute, rename = "n745", prefix = "b")]
    pub a161: Option<u32>,
    #[static_xml(rename = "n745", prefix = "b")]
    pub e161: Option<u32>,
    #[static_xml(attribute, rename = "n745")]
    pub a162: Option<u32>,
    #[static_xml(rename = "n745")]
    pub e162: Option<u32>,
    #[static_xml(attribute, rename = "n286", prefix = "a")]
    pub a163: Option<u32>,
    #[static_xml(rename = "n286", prefix = "a")]
    pub e163: Option<u32>,
    #[static_xml(attribute, rename = "n286", prefix = "b")]
    pub a164: Option<u32>,
    #[static_xml(rename = "n286", prefix = "b")]
    pub e164: Option<u32>,
    #[static_xml(attribute, rename = "n989")]
    pub a165: Option<u32>,
    #[static_xml(rename = "n989")]
    pub e165: Option<u32>,
    #[static_xml(attribute, rename = "n989", prefix = "a")]
    pub a166: Option<u32>,
    #[static_xml(rename = "n989", prefix = "a")]
    pub e166: Option<u32>,
    #[static_xml(attribute, rename = "n989", prefix = "b")]
    pub a167: Option<u32>,
    #[static_xml(rename = "n989", prefix = "b")]
    pub e167: Option<u32>,
    #[static_xml(attribute, rename = "n530")]
    pub a168: Option<u32>,
    #[static_xml(rename = "n530")]
    pub e168: Option<u32>,
    #[static_xml(attribute, rename = "n530", prefix = "a")]
    pub a169: Option<u32>,
    #[static_xml(rename = "n530", prefix = "a")]
    pub e169: Option<u32>,
    #[static_xml(attribute, rename = "n224", prefix = "b")]
    pub a170: Option<u32>,
    #[static_xml(rename = "n224", prefix = "b")]
    pub e170: Option<u32>,
    #[static_xml(attribute, rename = "n224")]
    pub a171: Option<u32>,
    #[static_xml(rename = "n224")]
    pub e171: Option<u32>,
    #[static_xml(attribute, rename = "n224", prefix = "a")]
    pub a172: Option<u32>,
    #[static_xml(rename = "n224", prefix = "a")]
    pub e172: Option<u32>,
    #[static_xml(attribute, rename = "n774", prefix = "b")]
    pub a173: Option<u32>,
    #[static_xml(rename = "n774", prefix = "b")]
    pub e173: Option<u32>,
    #[static_xml(attribute, rename = "n774")]
    pub a174: Option<u32>,
    #[static_xml(rename = "n774")]
    pub e174: Option<u32>,
    #[static_xml(attribute, rename = "n468", prefix = "a")]
    pub a175: Option<u32>,
    #[static_xml(rename = "n468", prefix = "a")]
    pub e175: Option<u32>,
    #[static_xml(attribute, rename = "n468", prefix = "b")]
    pub a176: Option<u32>,
    #[static_xml(rename = "n468", prefix = "b")]
    pub e176: Option<u32>,
    #[static_xml(attribute, rename = "n468")]
    pub a177: Option<u32>,
    #[static_xml(rename = "n468")]
    pub e177: Option<u32>,
    #[static_xml(attribute, rename = "n9", prefix = "a")]
    pub a178: Option<u32>,
    #[static_xml(rename = "n9", prefix = "a")]
    pub e178: Option<u32>,
    #[static_xml(attribute, rename = "n9", prefix = "b")]
    pub a179: Option<u32>,
    #[static_xml(rename = "n9", prefix = "b")]
    pub e179: Option<u32>,
    #[static_xml(attribute, rename = "n712")]
    pub a180: Option<u32>,
    #[static_xml(rename = "n712")]
    pub e180: Option<u32>,
    #[static_xml(attribute, rename = "n712", prefix = "a")]
    pub a181: Option<u32>,
    #[static_xml(rename = "n712", prefix = "a")]
    pub e181: Option<u32>,
    #[static_xml(attribute, rename = "n712", prefix = "b")]
    pub a182: Option<u32>,
    #[static_xml(rename = "n712", prefix = "b")]
    pub e182: Option<u32>,
    #[static_xml(attribute, rename = "n253")]
    pub a183: Option<u32>,
    #[static_xml(rename = "n253")]
    pub e183: Option<u32>,
    #[static_xml(attribute, rename = "n253", prefix = "a")]
    pub a184: Option<u32>,
    #[static_xml(rename = "n253", prefix = "a")]
    pub e184: Option<u32>,
    #[static_xml(attribute, rename = "n956", prefix = "b")]
    pub a185: Option<u32>,
    #[static_xml(rename = "n956", prefix = "b")]
    pub e185: Option<u32>,
    #[static_xml(attribute, rename = "n956")]
    pub a186: Option<u32>,
    #[static_xml(rename = "n956")]
    pub e186: Option<u32>,
    #[static_xml(attribute, rename = "n956", prefix = "a")]
    pub a187: Option<u32>,
    #[static_xml(rename = "n956", prefix = "a")]
    pub e187: Option<u32>,
    #[static_xml(attribute, rename = "n497", prefix = "b")]
    pub a188: Option<u32>,
    #[static_xml(rename = "n497", prefix = "b")]
    pub e188: Option<u32>,
    #[static_xml(attribute, rename = "n497")]
    pub a189: Option<u32>,
    #[static_xml(rename = "n497")]
    pub e189: Option<u32>,
    #[static_xml(attribute, rename = "n191", prefix = "a")]
    pub a190: Option<u32>,
    #[static_xml(rename = "n191", prefix = "a")]
    pub e190: Option<u32>,
    #[static_xml(attribute, rename = "n191", prefix = "b")]
    pub a191: Option<u32>,
    #[static_xml(rename = "n191", prefix = "b")]
    pub e191: Option<u32>,
    #[static_xml(attribute, rename = "n191")]
    pub a192: Option<u32>,
    #[static_xml(rename = "n191")]
    pub e192: Option<u32>,
    #[static_xml(attribute, rename = "n741", prefix = "a")]
    pub a193: Option<u32>,
    #[static_xml(rename = "n741", prefix = "a")]
    pub e193: Option<u32>,
    #[static_xml(attribute, rename = "n741", prefix = "b")]
    pub a194: Option<u32>,
    #[static_xml(rename = "n741", prefix = "b")]
    pub e194: Option<u32>,
    #[static_xml(attribute, rename = "n435")]
    pub a195: Option<u32>,
    #[static_xml(rename = "n435")]
    pub e195: Option<u32>,
    #[static_xml(attribute, rename = "n435", prefix = "a")]
    pub a196: Option<u32>,
    #[static_xml(rename = "n435", prefix = "a")]
    pub e196: Option<u32>,
    #[static_xml(attribute, rename = "n435", prefix = "b")]
    pub a197: Option<u32>,
    #[static_xml(rename = "n435", prefix = "b")]
    pub e197: Option<u32>,
    #[static_xml(attribute, rename = "n985")]
    pub a198: Option<u32>,
    #[static_xml(rename = "n985")]
    pub e198: Option<u32>,
    #[static_xml(attribute, rename = "n985", prefix = "a")]
    pub a199: Option<u32>,
    #[static_xml(rename = "n985", prefix = "a")]
    pub e199: Option<u32>,
    #[static_xml(attribute, rename = "n679", prefix = "b")]
    pub a200: Option<u32>,
    #[static_xml(rename = "n679", prefix = "b")]
    pub e200: Option<u32>,
    #[static_xml(attribute, rename = "n679")]
    pub a201: Option<u32>,
    #[static_xml(rename = "n679")]
    pub e201: Option<u32>,
    #[static_xml(attribute, rename = "n679", prefix = "a")]
    pub a202: Option<u32>,
    #[static_xml(rename = "n679", prefix = "a")]
    pub e202: Option<u32>,
    #[static_xml(attribute, rename = "n220", prefix = "b")]
    pub a203: Option<u32>,
    #[static_xml(rename = "n220", prefix = "b")]
    pub e203: Option<u32>,
    #[static_xml(attribute, rename = "n220")]
    pub a204: Option<u32>,
    #[static_xml(rename = "n220")]
    pub e204: Option<u32>,
    #[static_xml(attribute, rename = "n923", prefix = "a")]
    pub a205: Option<u32>,
    #[static_xml(rename = "n923", prefix = "a")]
    pub e205: Option<u32>,
    #[static_xml(attribute, rename = "n923", prefix = "b")]
    pub a206: Option<u32>,
    #[static_xml(rename = "n923", prefix = "b")]
    pub e206: Option<u32>,
    #[static_xml(attribute, rename = "n923")]
    pub a207: Option<u32>,
    #[static_xml(rename = "n923")]
    pub e207: Option<u32>,
    #[static_xml(attribute, rename = "n464", prefix = "a")]
    pub a208: Option<u32>,
    #[static_xml(rename = "n464", prefix = "a")]
    pub e208: Option<u32>,
    #[static_xml(attribute, rename = "n464", prefix = "b")]
    pub a209: Option<u32>,
    #[static_xml(rename = "n464", prefix = "b")]
    pub e209: Option<u32>,
    #[static_xml(attribute, rename = "n158")]
    pub a210: Option<u32>,
    #[static_xml(rename = "n158")]
    pub e210: Option<u32>,
    #[static_xml(attribute, rename = "n158", prefix = "a")]
    pub a211: Option<u32>,
    #[static_xml(rename = "n158", prefix = "a")]
    pub e211: Option<u32>,
    #[static_xml(attribute, rename = "n158", prefix = "b")]
    pub a212: Option<u32>,
    #[static_xml(rename = "n158", prefix = "b")]
    pub e212: Option<u32>,
    #[static_xml(attribute, rename = "n708")]
    pub a213: Option<u32>,
    #[static_xml(rename = "n708")]
    pub e213: Option<u32>,
    #[static_xml(attribute, rename = "n708", prefix = "a")]
    pub a214: Option<u32>,
    #[static_xml(rename = "n708", prefix = "a")]
    pub e214: Option<u32>,
    #[static_xml(attribute, rename = "n402", prefix = "b")]
    pub a215: Option<u32>,
    #[static_xml(rename = "n402", prefix = "b")]
    pub e215: Option<u32>,
    #[static_xml(attribute, rename = "n402")]
    pub a216: Option<u32>,
    #[static_xml(rename = "n402")]
    pub e216: Option<u32>,
    #[static_xml(attribute, rename = "n402", prefix = "a")]
    pub a217: Option<u32>,
    #[static_xml(rename = "n402", prefix = "a")]
    pub e217: Option<u32>,
    #[static_xml(attribute, rename = "n952", prefix = "b")]
    pub a218: Option<u32>,
    #[static_xml(rename = "n952", prefix = "b")]
    pub e218: Option<u32>,
    #[static_xml(attribute, rename = "n952")]
    pub a219: Option<u32>,
    #[static_xml(rename = "n952")]
    pub e219: Option<u32>,
    #[static_xml(attribute, rename = "n646", prefix = "a")]
    pub a220: Option<u32>,
    #[static_xml(rename = "n646", prefix = "a")]
    pub e220: Option<u32>,
    #[static_xml(attribute, rename = "n646", prefix = "b")]
    pub a221: Option<u32>,
    #[static_xml(rename = "n646", prefix = "b")]
    pub e221: Option<u32>,
    #[static_xml(attribute, rename = "n646")]
    pub a222: Option<u32>,
    #[static_xml(rename = "n646")]
    pub e222: Option<u32>,
    #[static_xml(attribute, rename = "n187", prefix = "a")]
    pub a223: Option<u32>,
    #[static_xml(rename = "n187", prefix = "a")]
    pub e223: Option<u32>,
    #[static_xml(attribute, rename = "n187", prefix = "b")]
    pub a224: Option<u32>,
    #[static_xml(rename = "n187", prefix = "b")]
    pub e224: Option<u32>,
    #[static_xml(attribute, rename = "n890")]
    pub a225: Option<u32>,
    #[static_xml(rename = "n890")]
    pub e225: Option<u32>,
    #[static_xml(attribute, rename = "n890", prefix = "a")]
    pub a226: Option<u32>,
    #[static_xml(rename = "n890", prefix = "a")]
    pub e226: Option<u32>,
    #[static_xml(attribute, rename = "n890", prefix = "b")]
    pub a227: Option<u32>,
    #[static_xml(rename = "n890", prefix = "b")]
    pub e227: Option<u32>,
    #[static_xml(attribute, rename = "n431")]
    pub a228: Option<u32>,
    #[static_xml(rename = "n431")]
    pub e228: Option<u32>,
    #[static_xml(attribute, rename = "n431", prefix = "a")]
    pub a229: Option<u32>,
    #[static_xml(rename = "n431", prefix = "a")]
    pub e229: Option<u32>,
    #[static_xml(attribute, rename = "n125", prefix = "b")]
    pub a230: Option<u32>,
    #[static_xml(rename = "n125", prefix = "b")]
    pub e230: Option<u32>,
    #[static_xml(attribute, rename = "n125")]
    pub a231: Option<u32>,
    #[static_xml(rename = "n125")]
    pub e231: Option<u32>,
    #[static_xml(attribute, rename = "n125", prefix = "a")]
    pub a232: Option<u32>,
    #[static_xml(rename = "n125", prefix = "a")]
    pub e232: Option<u32>,
    #[static_xml(attribute, rename = "n675", prefix = "b")]
    pub a233: Option<u32>,
    #[static_xml(rename = "n675", prefix = "b")]
    pub e233: Option<u32>,
    #[static_xml(attribute, rename = "n675")]
    pub a234: Option<u32>,
    #[static_xml(rename = "n675")]
    pub e234: Option<u32>,
    #[static_xml(attribute, rename = "n369", prefix = "a")]
    pub a235: Option<u32>,
    #[static_xml(rename = "n369", prefix = "a")]
    pub e235: Option<u32>,
    #[static_xml(attribute, rename = "n369", prefix = "b")]
    pub a236: Option<u32>,
    #[static_xml(rename = "n369", prefix = "b")]
    pub e236: Option<u32>,
    #[static_xml(attribute, rename = "n369")]
    pub a237: Option<u32>,
    #[static_xml(rename = "n369")]
    pub e237: Option<u32>,
    #[static_xml(attribute, rename = "n919", prefix = "a")]
    pub a238: Option<u32>,
    #[static_xml(rename = "n919", prefix = "a")]
    pub e238: Option<u32>,
    #[static_xml(attribute, rename = "n919", prefix = "b")]
    pub a239: Option<u32>,
    #[static_xml(rename = "n919", prefix = "b")]
    pub e239: Option<u32>,
    #[static_xml(attribute, rename = "n613")]
    pub a240: Option<u32>,
    #[static_xml(rename = "n613")]
    pub e240: Option<u32>,
    #[static_xml(attribute, rename = "n613", prefix = "a")]
    pub a241: Option<u32>,
    #[static_xml(rename = "n613", prefix = "a")]
    pub e241: Option<u32>,
    #[static_xml(attribute, rename = "n613", prefix = "b")]
    pub a242: Option<u32>,
    #[static_xml(rename = "n613", prefix = "b")]
    pub e242: Option<u32>,
    #[static_xml(attribute, rename = "n154")]
    pub a243: Option<u32>,
    #[static_xml(rename = "n154")]
    pub e243: Option<u32>,
    #[static_xml(attribute, rename = "n154", prefix = "a")]
    pub a244: Option<u32>,
    #[static_xml(rename = "n154", prefix = "a")]
    pub e244: Option<u32>,
    #[static_xml(attribute, rename = "n857", prefix = "b")]
    pub a245: Option<u32>,
    #[static_xml(rename = "n857", prefix = "b")]
    pub e245: Option<u32>,
    #[static_xml(attribute, rename = "n857")]
    pub a246: Option<u32>,
    #[static_xml(rename = "n857")]
    pub e246: Option<u32>,
    #[static_xml(attribute, rename = "n857", prefix = "a")]
    pub a247: Option<u32>,
    #[static_xml(rename = "n857", prefix = "a")]
    pub e247: Option<u32>,
    #[static_xml(attribute, rename = "n398", prefix = "b")]
    pub a248: Option<u32>,
    #[static_xml(rename = "n398", prefix = "b")]
    pub e248: Option<u32>,
    #[static_xml(attribute, rename = "n398")]
    pub a249: Option<u32>,
    #[static_xml(rename = "n398")]
    pub e249: Option<u32>,
    #[static_xml(attribute, rename = "n92", prefix = "a")]
    pub a250: Option<u32>,
    #[static_xml(rename = "n92", prefix = "a")]
    pub e250: Option<u32>,
    #[static_xml(attribute, rename = "n92", prefix = "b")]
    pub a251: Option<u32>,
    #[static_xml(rename = "n92", prefix = "b")]
    pub e251: Option<u32>,
    #[static_xml(attribute, rename = "n92")]
    pub a252: Option<u32>,
    #[static_xml(rename = "n92")]
    pub e252: Option<u32>,
    #[static_xml(attribute, rename = "n642", prefix = "a")]
    pub a253: Option<u32>,
    #[static_xml(rename = "n642", prefix = "a")]
    pub e253: Option<u32>,
    #[static_xml(attribute, rename = "n642", prefix = "b")]
    pub a254: Option<u32>,
    #[static_xml(rename = "n642", prefix = "b")]
    pub e254: Option<u32>,
    #[static_xml(attribute, rename = "n336")]
    pub a255: Option<u32>,
    #[static_xml(rename = "n336")]
    pub e255: Option<u32>,
    #[static_xml(attribute, rename = "n336", prefix = "a")]
    pub a256: Option<u32>,
    #[static_xml(rename = "n336", prefix = "a")]
    pub e256: Option<u32>,
    #[static_xml(attribute, rename = "n336", prefix = "b")]
    pub a257: Option<u32>,
    #[static_xml(rename = "n336", prefix = "b")]
    pub e257: Option<u32>,
    #[static_xml(attribute, rename = "n886")]
    pub a258: Option<u32>,
    #[static_xml(rename = "n886")]
    pub e258: Option<u32>,
    #[static_xml(attribute, rename = "n886", prefix = "a")]
    pub a259: Option<u32>,
    #[static_xml(rename = "n886", prefix = "a")]
    pub e259: Option<u32>,
    #[static_xml(attribute, rename = "n580", prefix = "b")]
    pub a260: Option<u32>,
    #[static_xml(rename = "n580", prefix = "b")]
    pub e260: Option<u32>,
    #[static_xml(attribute, rename = "n580")]
    pub a261: Option<u32>,
    #[static_xml(rename = "n580")]
    pub e261: Option<u32>,
    #[static_xml(attribute, rename = "n580", prefix = "a")]
    pub a262: Option<u32>,
    #[static_xml(rename = "n580", prefix = "a")]
    pub e262: Option<u32>,
    #[static_xml(attribute, rename = "n121", prefix = "b")]
    pub a263: Option<u32>,
    #[static_xml(rename = "n121", prefix = "b")]
    pub e263: Option<u32>,
    #[static_xml(attribute, rename = "n121")]
    pub a264: Option<u32>,
    #[static_xml(rename = "n121")]
    pub e264: Option<u32>,
    #[static_xml(attribute, rename = "n824", prefix = "a")]
    pub a265: Option<u32>,
    #[static_xml(rename = "n824", prefix = "a")]
    pub e265: Option<u32>,
    #[static_xml(attribute, rename = "n824", prefix = "b")]
    pub a266: Option<u32>,
    #[static_xml(rename = "n824", prefix = "b")]
    pub e266: Option<u32>,
    #[static_xml(attribute, rename = "n824")]
    pub a267: Option<u32>,
    #[static_xml(rename = "n824")]
    pub e267: Option<u32>,
    #[static_xml(attribute, rename = "n365", prefix = "a")]
    pub a268: Option<u32>,
    #[static_xml(rename = "n365", prefix = "a")]
    pub e268: Option<u32>,
    #[static_xml(attribute, rename = "n365", prefix = "b")]
    pub a269: Option<u32>,
    #[static_xml(rename = "n365", prefix = "b")]
    pub e269: Option<u32>,
    #[static_xml(attribute, rename = "n59")]
    pub a270: Option<u32>,
    #[static_xml(rename = "n59")]
    pub e270: Option<u32>,
    #[static_xml(attribute, rename = "n59", prefix = "a")]
    pub a271: Option<u32>,
    #[static_xml(rename = "n59", prefix = "a")]
    pub e271: Option<u32>,
    #[static_xml(attribute, rename = "n59", prefix = "b")]
    pub a272: Option<u32>,
    #[static_xml(rename = "n59", prefix = "b")]
    pub e272: Option<u32>,
    #[static_xml(attribute, rename = "n609")]
    pub a273: Option<u32>,
    #[static_xml(rename = "n609")]
    pub e273: Option<u32>,
    #[static_xml(attribute, rename = "n609", prefix = "a")]
    pub a274: Option<u32>,
    #[static_xml(rename = "n609", prefix = "a")]
    pub e274: Option<u32>,
    #[static_xml(attribute, rename = "n303", prefix = "b")]
    pub a275: Option<u32>,
    #[static_xml(rename = "n303", prefix = "b")]
    pub e275: Option<u32>,
    #[static_xml(attribute, rename = "n303")]
    pub a276: Option<u32>,
    #[static_xml(rename = "n303")]
    pub e276: Option<u32>,
    #[static_xml(attribute, rename = "n303", prefix = "a")]
    pub a277: Option<u32>,
    #[static_xml(rename = "n303", prefix = "a")]
    pub e277: Option<u32>,
    #[static_xml(attribute, rename = "n853", prefix = "b")]
    pub a278: Option<u32>,
    #[static_xml(rename = "n853", prefix = "b")]
    pub e278: Option<u32>,
    #[static_xml(attribute, rename = "n853")]
    pub a279: Option<u32>,
    #[static_xml(rename = "n853")]
    pub e279: Option<u32>,
    #[static_xml(attribute, rename = "n547", prefix = "a")]
    pub a280: Option<u32>,
    #[static_xml(rename = "n547", prefix = "a")]
    pub e280: Option<u32>,
    #[static_xml(attribute, rename = "n547", prefix = "b")]
    pub a281: Option<u32>,
    #[static_xml(rename = "n547", prefix = "b")]
    pub e281: Option<u32>,
    #[static_xml(attribute, rename = "n547")]
    pub a282: Option<u32>,
    #[static_xml(rename = "n547")]
    pub e282: Option<u32>,
    #[static_xml(attribute, rename = "n88", prefix = "a")]
    pub a283: Option<u32>,
    #[static_xml(rename = "n88", prefix = "a")]
    pub e283: Option<u32>,
    #[static_xml(attribute, rename = "n88", prefix = "b")]
    pub a284: Option<u32>,
    #[static_xml(rename = "n88", prefix = "b")]
    pub e284: Option<u32>,
    #[static_xml(attribute, rename = "n791")]
    pub a285: Option<u32>,
    #[static_xml(rename = "n791")]
    pub e285: Option<u32>,
    #[static_xml(attribute, rename = "n791", prefix = "a")]
    pub a286: Option<u32>,
    #[static_xml(rename = "n791", prefix = "a")]
    pub e286: Option<u32>,
    #[static_xml(attribute, rename = "n791", prefix = "b")]
    pub a287: Option<u32>,
    #[static_xml(rename = "n791", prefix = "b")]
    pub e287: Option<u32>,
    #[static_xml(attribute, rename = "n332")]
    pub a288: Option<u32>,
    #[static_xml(rename = "n332")]
    pub e288: Option<u32>,
    #[static_xml(attribute, rename = "n332", prefix = "a")]
    pub a289: Option<u32>,
    #[static_xml(rename = "n332", prefix = "a")]
    pub e289: Option<u32>,
    #[static_xml(attribute, rename = "n26", prefix = "b")]
    pub a290: Option<u32>,
    #[static_xml(rename = "n26", prefix = "b")]
    pub e290: Option<u32>,
    #[static_xml(attribute, rename = "n26")]
    pub a291: Option<u32>,
    #[static_xml(rename = "n26")]
    pub e291: Option<u32>,
    #[static_xml(attribute, rename = "n26", prefix = "a")]
    pub a292: Option<u32>,
    #[static_xml(rename = "n26", prefix = "a")]
    pub e292: Option<u32>,
    #[static_xml(attribute, rename = "n576", prefix = "b")]
    pub a293: Option<u32>,
    #[static_xml(rename = "n576", prefix = "b")]
    pub e293: Option<u32>,
    #[static_xml(attribute, rename = "n576")]
    pub a294: Option<u32>,
    #[static_xml(rename = "n576")]
    pub e294: Option<u32>,
    #[static_xml(attribute, rename = "n270", prefix = "a")]
    pub a295: Option<u32>,
    #[static_xml(rename = "n270", prefix = "a")]
    pub e295: Option<u32>,
    #[static_xml(attribute, rename = "n270", prefix = "b")]
    pub a296: Option<u32>,
    #[static_xml(rename = "n270", prefix = "b")]
    pub e296: Option<u32>,
    #[static_xml(attribute, rename = "n270")]
    pub a297: Option<u32>,
    #[static_xml(rename = "n270")]
    pub e297: Option<u32>,
    #[static_xml(attribute, rename = "n820", prefix = "a")]
    pub a298: Option<u32>,
    #[static_xml(rename = "n820", prefix = "a")]
    pub e298: Option<u32>,
    #[static_xml(attribute, rename = "n820", prefix = "b")]
    pub a299: Option<u32>,
    #[static_xml(rename = "n820", prefix = "b")]
    pub e299: Option<u32>,
}
#[derive(Deserialize, Serialize)]
#[static_xml(namespace = "a: urn:a", namespace = "b: urn:b")]
pub enum Choice {
    #[static_xml(rename = "n0")]
    V0(u32),
    #[static_xml(rename = "n0", prefix = "a")]
    V1(u32),
    #[static_xml(rename = "n0", prefix = "b")]
    V2(u32),
    #[static_xml(rename = "n550")]
    V3(u32),
    #[static_xml(rename = "n550", prefix = "a")]
    V4(u32),
    #[static_xml(rename = "n244", prefix = "b")]
    V5(u32),
    #[static_xml(rename = "n244")]
    V6(u32),
    #[static_xml(rename = "n244", prefix = "a")]
    V7(u32),
    #[static_xml(rename = "n794", prefix = "b")]
    V8(u32),
    #[static_xml(rename = "n794")]
    V9(u32),
    #[static_xml(rename = "n488", prefix = "a")]
    V10(u32),
    #[static_xml(rename = "n488", prefix = "b")]
    V11(u32),
    #[static_xml(rename = "n488")]
    V12(u32),
    #[static_xml(rename = "n29", prefix = "a")]
    V13(u32),
    #[static_xml(rename = "n29", prefix = "b")]
    V14(u32),
    #[static_xml(rename = "n732")]
    V15(u32),
    #[static_xml(rename = "n732", prefix = "a")]
    V16(u32),
    #[static_xml(rename = "n732", prefix = "b")]
    V17(u32),
    #[static_xml(rename = "n273")]
    V18(u32),
    #[static_xml(rename = "n273", prefix = "a")]
    V19(u32),
    #[static_xml(rename = "n976", prefix = "b")]
    V20(u32),
    #[static_xml(rename = "n976")]
    V21(u32),
    #[static_xml(rename = "n976", prefix = "a")]
    V22(u32),
    #[static_xml(rename = "n517", prefix = "b")]
    V23(u32),
    #[static_xml(rename = "n517")]
    V24(u32),
    #[static_xml(rename = "n211", prefix = "a")]
    V25(u32),
    #[static_xml(rename = "n211", prefix = "b")]
    V26(u32),
    #[static_xml(rename = "n211")]
    V27(u32),
    #[static_xml(rename = "n761", prefix = "a")]
    V28(u32),
    #[static_xml(rename = "n761", prefix = "b")]
    V29(u32),
    #[static_xml(rename = "n455")]
    V30(u32),
    #[static_xml(rename = "n455", prefix = "a")]
    V31(u32),
    #[static_xml(rename = "n455", prefix = "b")]
    V32(u32),
    #[static_xml(rename = "n1005")]
    V33(u32),
    #[static_xml(rename = "n1005", prefix = "a")]
    V34(u32),
    #[static_xml(rename = "n699", prefix = "b")]
    V35(u32),
    #[static_xml(rename = "n699")]
    V36(u32),
    #[static_xml(rename = "n699", prefix = "a")]
    V37(u32),
    #[static_xml(rename = "n240", prefix = "b")]
    V38(u32),
    #[static_xml(rename = "n240")]
    V39(u32),
    #[static_xml(rename = "n943", prefix = "a")]
    V40(u32),
    #[static_xml(rename = "n943", prefix = "b")]
    V41(u32),
    #[static_xml(rename = "n943")]
    V42(u32),
    #[static_xml(rename = "n484", prefix = "a")]
    V43(u32),
    #[static_xml(rename = "n484", prefix = "b")]
    V44(u32),
    #[static_xml(rename = "n178")]
    V45(u32),
    #[static_xml(rename = "n178", prefix = "a")]
    V46(u32),
    #[static_xml(rename = "n178", prefix = "b")]
    V47(u32),
    #[static_xml(rename = "n728")]
    V48(u32),
    #[static_xml(rename = "n728", prefix = "a")]
    V49(u32),
    #[static_xml(rename = "n422", prefix = "b")]
    V50(u32),
    #[static_xml(rename = "n422")]
    V51(u32),
    #[static_xml(rename = "n422", prefix = "a")]
    V52(u32),
    #[static_xml(rename = "n972", prefix = "b")]
    V53(u32),
    #[static_xml(rename = "n972")]
    V54(u32),
    #[static_xml(rename = "n666", prefix = "a")]
    V55(u32),
    #[static_xml(rename = "n666", prefix = "b")]
    V56(u32),
    #[static_xml(rename = "n666")]
    V57(u32),
    #[static_xml(rename = "n207", prefix = "a")]
    V58(u32),
    #[static_xml(rename = "n207", prefix = "b")]
    V59(u32),
    #[static_xml(rename = "n910")]
    V60(u32),
    #[static_xml(rename = "n910", prefix = "a")]
    V61(u32),
    #[static_xml(rename = "n910", prefix = "b")]
    V62(u32),
    #[static_xml(rename = "n451")]
    V63(u32),
    #[static_xml(rename = "n451", prefix = "a")]
    V64(u32),
    #[static_xml(rename = "n145", prefix = "b")]
    V65(u32),
    #[static_xml(rename = "n145")]
    V66(u32),
    #[static_xml(rename = "n145", prefix = "a")]
    V67(u32),
    #[static_xml(rename = "n695", prefix = "b")]
    V68(u32),
    #[static_xml(rename = "n695")]
    V69(u32),
    #[static_xml(rename = "n389", prefix = "a")]
    V70(u32),
    #[static_xml(rename = "n389", prefix = "b")]
    V71(u32),
    #[static_xml(rename = "n389")]
    V72(u32),
    #[static_xml(rename = "n939", prefix = "a")]
    V73(u32),
    #[static_xml(rename = "n939", prefix = "b")]
    V74(u32),
    #[static_xml(rename = "n633")]
    V75(u32),
    #[static_xml(rename = "n633", prefix = "a")]
    V76(u32),
    #[static_xml(rename = "n633", prefix = "b")]
    V77(u32),
    #[static_xml(rename = "n174")]
    V78(u32),
    #[static_xml(rename = "n174", prefix = "a")]
    V79(u32),
    #[static_xml(rename = "n877", prefix = "b")]
    V80(u32),
    #[static_xml(rename = "n877")]
    V81(u32),
    #[static_xml(rename = "n877", prefix = "a")]
    V82(u32),
    #[static_xml(rename = "n418", prefix = "b")]
    V83(u32),
    #[static_xml(rename = "n418")]
    V84(u32),
    #[static_xml(rename = "n112", prefix = "a")]
    V85(u32),
    #[static_xml(rename = "n112", prefix = "b")]
    V86(u32),
    #[static_xml(rename = "n112")]
    V87(u32),
    #[static_xml(rename = "n662", prefix = "a")]
    V88(u32),
    #[static_xml(rename = "n662", prefix = "b")]
    V89(u32),
    #[static_xml(rename = "n356")]
    V90(u32),
    #[static_xml(rename = "n356", prefix = "a")]
    V91(u32),
    #[static_xml(rename = "n356", prefix = "b")]
    V92(u32),
    #[static_xml(rename = "n906")]
    V93(u32),
    #[static_xml(rename = "n906", prefix = "a")]
    V94(u32),
    #[static_xml(rename = "n600", prefix = "b")]
    V95(u32),
    #[static_xml(rename = "n600")]
    V96(u32),
    #[static_xml(rename = "n600", prefix = "a")]
    V97(u32),
    #[static_xml(rename = "n141", prefix = "b")]
    V98(u32),
    #[static_xml(rename = "n141")]
    V99(u32),
    #[static_xml(rename = "n844", prefix = "a")]
    V100(u32),
    #[static_xml(rename = "n844", prefix = "b")]
    V101(u32),
    #[static_xml(rename = "n844")]
    V102(u32),
    #[static_xml(rename = "n385", prefix = "a")]
    V103(u32),
    #[static_xml(rename = "n385", prefix = "b")]
    V104(u32),
    #[static_xml(rename = "n79")]
    V105(u32),
    #[static_xml(rename = "n79", prefix = "a")]
    V106(u32),
    #[static_xml(rename = "n79", prefix = "b")]
    V107(u32),
    #[static_xml(rename = "n629")]
    V108(u32),
    #[static_xml(rename = "n629", prefix = "a")]
    V109(u32),
    #[static_xml(rename = "n323", prefix = "b")]
    V110(u32),
    #[static_xml(rename = "n323")]
    V111(u32),
    #[static_xml(rename = "n323", prefix = "a")]
    V112(u32),
    #[static_xml(rename = "n873", prefix = "b")]
    V113(u32),
    #[static_xml(rename = "n873")]
    V114(u32),
    #[static_xml(rename = "n567", prefix = "a")]
    V115(u32),
    #[static_xml(rename = "n567", prefix = "b")]
    V116(u32),
    #[static_xml(rename = "n567")]
    V117(u32),
    #[static_xml(rename = "n108", prefix = "a")]
    V118(u32),
    #[static_xml(rename = "n108", prefix = "b")]
    V119(u32),
    #[static_xml(rename = "n811")]
    V120(u32),
    #[static_xml(rename = "n811", prefix = "a")]
    V121(u32),
    #[static_xml(rename = "n811", prefix = "b")]
    V122(u32),
    #[static_xml(rename = "n352")]
    V123(u32),
    #[static_xml(rename = "n352", prefix = "a")]
    V124(u32),
    #[static_xml(rename = "n46", prefix = "b")]
    V125(u32),
    #[static_xml(rename = "n46")]
    V126(u32),
    #[static_xml(rename = "n46", prefix = "a")]
    V127(u32),
    #[static_xml(rename = "n596", prefix = "b")]
    V128(u32),
    #[static_xml(rename = "n596")]
    V129(u32),
    #[static_xml(rename = "n290", prefix = "a")]
    V130(u32),
    #[static_xml(rename = "n290", prefix = "b")]
    V131(u32),
    #[static_xml(rename = "n290")]
    V132(u32),
    #[static_xml(rename = "n840", prefix = "a")]
    V133(u32),
    #[static_xml(rename = "n840", prefix = "b")]
    V134(u32),
    #[static_xml(rename = "n534")]
    V135(u32),
    #[static_xml(rename = "n534", prefix = "a")]
    V136(u32),
    #[static_xml(rename = "n534", prefix = "b")]
    V137(u32),
    #[static_xml(rename = "n75")]
    V138(u32),
    #[static_xml(rename = "n75", prefix = "a")]
    V139(u32),
    #[static_xml(rename = "n778", prefix = "b")]
    V140(u32),
    #[static_xml(rename = "n778")]
    V141(u32),
    #[static_xml(rename = "n778", prefix = "a")]
    V142(u32),
    #[static_xml(rename = "n319", prefix = "b")]
    V143(u32),
    #[static_xml(rename = "n319")]
    V144(u32),
    #[static_xml(rename = "n13", prefix = "a")]
    V145(u32),
    #[static_xml(rename = "n13", prefix = "b")]
    V146(u32),
    #[static_xml(rename = "n13")]
    V147(u32),
    #[static_xml(rename = "n563", prefix = "a")]
    V148(u32),
    #[static_xml(rename = "n563", prefix = "b")]
    V149(u32),
    #[static_xml(rename = "n257")]
    V150(u32),
    #[static_xml(rename = "n257", prefix = "a")]
    V151(u32),
    #[static_xml(rename = "n257", prefix = "b")]
    V152(u32),
    #[static_xml(rename = "n807")]
    V153(u32),
    #[static_xml(rename = "n807", prefix = "a")]
    V154(u32),
    #[static_xml(rename = "n501", prefix = "b")]
    V155(u32),
    #[static_xml(rename = "n501")]
    V156(u32),
    #[static_xml(rename = "n501", prefix = "a")]
    V157(u32),
    #[static_xml(rename = "n42", prefix = "b")]
    V158(u32),
    #[static_xml(rename = "n42")]
    V159(u32),
    #[static_xml(rename = "n745", prefix = "a")]
    V160(u32),
    #[static_xml(rename = "n745", prefix = "b")]
    V161(u32),
    #[static_xml(rename = "n745")]
    V162(u32),
    #[static_xml(rename = "n286", prefix = "a")]
    V163(u32),
    #[static_xml(rename = "n286", prefix = "b")]
    V164(u32),
    #[static_xml(rename = "n989")]
    V165(u32),
    #[static_xml(rename = "n989", prefix = "a")]
    V166(u32),
    #[static_xml(rename = "n989", prefix = "b")]
    V167(u32),
    #[static_xml(rename = "n530")]
    V168(u32),
    #[static_xml(rename = "n530", prefix = "a")]
    V169(u32),
    #[static_xml(rename = "n224", prefix = "b")]
    V170(u32),
    #[static_xml(rename = "n224")]
    V171(u32),
    #[static_xml(rename = "n224", prefix = "a")]
    V172(u32),
    #[static_xml(rename = "n774", prefix = "b")]
    V173(u32),
    #[static_xml(rename = "n774")]
    V174(u32),
    #[static_xml(rename = "n468", prefix = "a")]
    V175(u32),
    #[static_xml(rename = "n468", prefix = "b")]
    V176(u32),
    #[static_xml(rename = "n468")]
    V177(u32),
    #[static_xml(rename = "n9", prefix = "a")]
    V178(u32),
    #[static_xml(rename = "n9", prefix = "b")]
    V179(u32),
    #[static_xml(rename = "n712")]
    V180(u32),
    #[static_xml(rename = "n712", prefix = "a")]
    V181(u32),
    #[static_xml(rename = "n712", prefix = "b")]
    V182(u32),
    #[static_xml(rename = "n253")]
    V183(u32),
    #[static_xml(rename = "n253", prefix = "a")]
    V184(u32),
    #[static_xml(rename = "n956", prefix = "b")]
    V185(u32),
    #[static_xml(rename = "n956")]
    V186(u32),
    #[static_xml(rename = "n956", prefix = "a")]
    V187(u32),
    #[static_xml(rename = "n497", prefix = "b")]
    V188(u32),
    #[static_xml(rename = "n497")]
    V189(u32),
    #[static_xml(rename = "n191", prefix = "a")]
    V190(u32),
    #[static_xml(rename = "n191", prefix = "b")]
    V191(u32),
    #[static_xml(rename = "n191")]
    V192(u32),
    #[static_xml(rename = "n741", prefix = "a")]
    V193(u32),
    #[static_xml(rename = "n741", prefix = "b")]
    V194(u32),
    #[static_xml(rename = "n435")]
    V195(u32),
    #[static_xml(rename = "n435", prefix = "a")]
    V196(u32),
    #[static_xml(rename = "n435", prefix = "b")]
    V197(u32),
    #[static_xml(rename = "n985")]
    V198(u32),
    #[static_xml(rename = "n985", prefix = "a")]
    V199(u32),
    #[static_xml(rename = "n679", prefix = "b")]
    V200(u32),
    #[static_xml(rename = "n679")]
    V201(u32),
    #[static_xml(rename = "n679", prefix = "a")]
    V202(u32),
    #[static_xml(rename = "n220", prefix = "b")]
    V203(u32),
    #[static_xml(rename = "n220")]
    V204(u32),
    #[static_xml(rename = "n923", prefix = "a")]
    V205(u32),
    #[static_xml(rename = "n923", prefix = "b")]
    V206(u32),
    #[static_xml(rename = "n923")]
    V207(u32),
    #[static_xml(rename = "n464", prefix = "a")]
    V208(u32),
    #[static_xml(rename = "n464", prefix = "b")]
    V209(u32),
    #[static_xml(rename = "n158")]
    V210(u32),
    #[static_xml(rename = "n158", prefix = "a")]
    V211(u32),
    #[static_xml(rename = "n158", prefix = "b")]
    V212(u32),
    #[static_xml(rename = "n708")]
    V213(u32),
    #[static_xml(rename = "n708", prefix = "a")]
    V214(u32),
    #[static_xml(rename = "n402", prefix = "b")]
    V215(u32),
    #[static_xml(rename = "n402")]
    V216(u32),
    #[static_xml(rename = "n402", prefix = "a")]
    V217(u32),
    #[static_xml(rename = "n952", prefix = "b")]
    V218(u32),
    #[static_xml(rename = "n952")]
    V219(u32),
    #[static_xml(rename = "n646", prefix = "a")]
    V220(u32),
    #[static_xml(rename = "n646", prefix = "b")]
    V221(u32),
    #[static_xml(rename = "n646")]
    V222(u32),
    #[static_xml(rename = "n187", prefix = "a")]
    V223(u32),
    #[static_xml(rename = "n187", prefix = "b")]
    V224(u32),
    #[static_xml(rename = "n890")]
    V225(u32),
    #[static_xml(rename = "n890", prefix = "a")]
    V226(u32),
    #[static_xml(rename = "n890", prefix = "b")]
    V227(u32),
    #[static_xml(rename = "n431")]
    V228(u32),
    #[static_xml(rename = "n431", prefix = "a")]
    V229(u32),
    #[static_xml(rename = "n125", prefix = "b")]
    V230(u32),
    #[static_xml(rename = "n125")]
    V231(u32),
    #[static_xml(rename = "n125", prefix = "a")]
    V232(u32),
    #[static_xml(rename = "n675", prefix = "b")]
    V233(u32),
    #[static_xml(rename = "n675")]
    V234(u32),
    #[static_xml(rename = "n369", prefix = "a")]
    V235(u32),
    #[static_xml(rename = "n369", prefix = "b")]
    V236(u32),
    #[static_xml(rename = "n369")]
    V237(u32),
    #[static_xml(rename = "n919", prefix = "a")]
    V238(u32),
    #[static_xml(rename = "n919", prefix = "b")]
    V239(u32),
    #[static_xml(rename = "n613")]
    V240(u32),
    #[static_xml(rename = "n613", prefix = "a")]
    V241(u32),
    #[static_xml(rename = "n613", prefix = "b")]
    V242(u32),
    #[static_xml(rename = "n154")]
    V243(u32),
    #[static_xml(rename = "n154", prefix = "a")]
    V244(u32),
    #[static_xml(rename = "n857", prefix = "b")]
    V245(u32),
    #[static_xml(rename = "n857")]
    V246(u32),
    #[static_xml(rename = "n857", prefix = "a")]
    V247(u32),
    #[static_xml(rename = "n398", prefix = "b")]
    V248(u32),
    #[static_xml(rename = "n398")]
    V249(u32),
    #[static_xml(rename = "n92", prefix = "a")]
    V250(u32),
    #[static_xml(rename = "n92", prefix = "b")]
    V251(u32),
    #[static_xml(rename = "n92")]
    V252(u32),
    #[static_xml(rename = "n642", prefix = "a")]
    V253(u32),
    #[static_xml(rename = "n642", prefix = "b")]
    V254(u32),
    #[static_xml(rename = "n336")]
    V255(u32),
    #[static_xml(rename = "n336", prefix = "a")]
    V256(u32),
    #[static_xml(rename = "n336", prefix = "b")]
    V257(u32),
    #[static_xml(rename = "n886")]
    V258(u32),
    #[static_xml(rename = "n886", prefix = "a")]
    V259(u32),
    #[static_xml(rename = "n580", prefix = "b")]
    V260(u32),
    #[static_xml(rename = "n580")]
    V261(u32),
    #[static_xml(rename = "n580", prefix = "a")]
    V262(u32),
    #[static_xml(rename = "n121", prefix = "b")]
    V263(u32),
    #[static_xml(rename = "n121")]
    V264(u32),
    #[static_xml(rename = "n824", prefix = "a")]
    V265(u32),
    #[static_xml(rename = "n824", prefix = "b")]
    V266(u32),
    #[static_xml(rename = "n824")]
    V267(u32),
    #[static_xml(rename = "n365", prefix = "a")]
    V268(u32),
    #[static_xml(rename = "n365", prefix = "b")]
    V269(u32),
    #[static_xml(rename = "n59")]
    V270(u32),
    #[static_xml(rename = "n59", prefix = "a")]
    V271(u32),
    #[static_xml(rename = "n59", prefix = "b")]
    V272(u32),
    #[static_xml(rename = "n609")]
    V273(u32),
    #[static_xml(rename = "n609", prefix = "a")]
    V274(u32),
    #[static_xml(rename = "n303", prefix = "b")]
    V275(u32),
    #[static_xml(rename = "n303")]
    V276(u32),
    #[static_xml(rename = "n303", prefix = "a")]
    V277(u32),
    #[static_xml(rename = "n853", prefix = "b")]
    V278(u32),
    #[static_xml(rename = "n853")]
    V279(u32),
    #[static_xml(rename = "n547", prefix = "a")]
    V280(u32),
    #[static_xml(rename = "n547", prefix = "b")]
    V281(u32),
    #[static_xml(rename = "n547")]
    V282(u32),
    #[static_xml(rename = "n88", prefix = "a")]
    V283(u32),
    #[static_xml(rename = "n88", prefix = "b")]
    V284(u32),
    #[static_xml(rename = "n791")]
    V285(u32),
    #[static_xml(rename = "n791", prefix = "a")]
    V286(u32),
    #[static_xml(rename = "n791", prefix = "b")]
    V287(u32),
    #[static_xml(rename = "n332")]
    V288(u32),
    #[static_xml(rename = "n332", prefix = "a")]
    V289(u32),
    #[static_xml(rename = "n26", prefix = "b")]
    V290(u32),
    #[static_xml(rename = "n26")]
    V291(u32),
    #[static_xml(rename = "n26", prefix = "a")]
    V292(u32),
    #[static_xml(rename = "n576", prefix = "b")]
    V293(u32),
    #[static_xml(rename = "n576")]
    V294(u32),
    #[static_xml(rename = "n270", prefix = "a")]
    V295(u32),
    #[static_xml(rename = "n270", prefix = "b")]
    V296(u32),
    #[static_xml(rename = "n270")]
    V297(u32),
    #[static_xml(rename = "n820", prefix = "a")]
    V298(u32),
    #[static_xml(rename = "n820", prefix = "b")]
    V299(u32),
}
pub fn wide(w: &Wide) -> (Vec<Option<u32>>, Vec<Option<u32>>) {
    (vec![w.a0, w.a1, w.a2, w.a3, w.a4, w.a5, w.a6, w.a7, w.a8, w.a9, w.a10, w.a11, w.a12, w.a13, w.a14, w.a15, w.a16, w.a17, w.a18, w.a19, w.a20, w.a21, w.a22, w.a23, w.a24, w.a25, w.a26, w.a27, w.a28, w.a29, w.a30, w.a31, w.a32, w.a33, w.a34, w.a35, w.a36, w.a37, w.a38, w.a39, w.a40, w.a41, w.a42, w.a43, w.a44, w.a45, w.a46, w.a47, w.a48, w.a49, w.a50, w.a51, w.a52, w.a53, w.a54, w.a55, w.a56, w.a57, w.a58, w.a59, w.a60, w.a61, w.a62, w.a63, w.a64, w.a65, w.a66, w.a67, w.a68, w.a69, w.a70, w.a71, w.a72, w.a73, w.a74, w.a75, w.a76, w.a77, w.a78, w.a79, w.a80, w.a81, w.a82, w.a83, w.a84, w.a85, w.a86, w.a87, w.a88, w.a89, w.a90, w.a91, w.a92, w.a93, w.a94, w.a95, w.a96, w.a97, w.a98, w.a99, w.a100, w.a101, w.a102, w.a103, w.a104, w.a105, w.a106, w.a107, w.a108, w.a109, w.a110, w.a111, w.a112, w.a113, w.a114, w.a115, w.a116, w.a117, w.a118, w.a119, w.a120, w.a121, w.a122, w.a123, w.a124, w.a125, w.a126, w.a127, w.a128, w.a129, w.a130, w.a131, w.a132, w.a133, w.a134, w.a135, w.a136, w.a137, w.a138, w.a139, w.a140, w.a141, w.a142, w.a143, w.a144, w.a145, w.a146, w.a147, w.a148, w.a149, w.a150, w.a151, w.a152, w.a153, w.a154, w.a155, w.a156, w.a157, w.a158, w.a159, w.a160, w.a161, w.a162, w.a163, w.a164, w.a165, w.a166, w.a167, w.a168, w.a169, w.a170, w.a171, w.a172, w.a173, w.a174, w.a175, w.a176, w.a177, w.a178, w.a179, w.a180, w.a181, w.a182, w.a183, w.a184, w.a185, w.a186, w.a187, w.a188, w.a189, w.a190, w.a191, w.a192, w.a193, w.a194, w.a195, w.a196, w.a197, w.a198, w.a199, w.a200, w.a201, w.a202, w.a203, w.a204, w.a205, w.a206, w.a207, w.a208, w.a209, w.a210, w.a211, w.a212, w.a213, w.a214, w.a215, w.a216, w.a217, w.a218, w.a219, w.a220, w.a221, w.a222, w.a223, w.a224, w.a225, w.a226, w.a227, w.a228, w.a229, w.a230, w.a231, w.a232, w.a233, w.a234, w.a235, w.a236, w.a237, w.a238, w.a239, w.a240, w.a241, w.a242, w.a243, w.a244, w.a245, w.a246, w.a247, w.a248, w.a249, w.a250, w.a251, w.a252, w.a253, w.a254, w.a255, w.a256, w.a257, w.a258, w.a259, w.a260, w.a261, w.a262, w.a263, w.a264, w.a265, w.a266, w.a267, w.a268, w.a269, w.a270, w.a271, w.a272, w.a273, w.a274, w.a275, w.a276, w.a277, w.a278, w.a279, w.a280, w.a281, w.a282, w.a283, w.a284, w.a285, w.a286, w.a287, w.a288, w.a289, w.a290, w.a291, w.a292, w.a293, w.a294, w.a295, w.a296, w.a297, w.a298, w.a299],
     vec![w.e0, w.e1, w.e2, w.e3, w.e4, w.e5, w.e6, w.e7, w.e8, w.e9, w.e10, w.e11, w.e12, w.e13, w.e14, w.e15, w.e16, w.e17, w.e18, w.e19, w.e20, w.e21, w.e22, w.e23, w.e24, w.e25, w.e26, w.e27, w.e28, w.e29, w.e30, w.e31, w.e32, w.e33, w.e34, w.e35, w.e36, w.e37, w.e38, w.e39, w.e40, w.e41, w.e42, w.e43, w.e44, w.e45, w.e46, w.e47, w.e48, w.e49, w.e50, w.e51, w.e52, w.e53, w.e54, w.e55, w.e56, w.e57, w.e58, w.e59, w.e60, w.e61, w.e62, w.e63, w.e64, w.e65, w.e66, w.e67, w.e68, w.e69, w.e70, w.e71, w.e72, w.e73, w.e74, w.e75, w.e76, w.e77, w.e78, w.e79, w.e80, w.e81, w.e82, w.e83, w.e84, w.e85, w.e86, w.e87, w.e88, w.e89, w.e90, w.e91, w.e92, w.e93, w.e94, w.e95, w.e96, w.e97, w.e98, w.e99, w.e100, w.e101, w.e102, w.e103, w.e104, w.e105, w.e106, w.e107, w.e108, w.e109, w.e110, w.e111, w.e112, w.e113, w.e114, w.e115, w.e116, w.e117, w.e118, w.e119, w.e120, w.e121, w.e122, w.e123, w.e124, w.e125, w.e126, w.e127, w.e128, w.e129, w.e130, w.e131, w.e132, w.e133, w.e134, w.e135, w.e136, w.e137, w.e138, w.e139, w.e140, w.e141, w.e142, w.e143, w.e144, w.e145, w.e146, w.e147, w.e148, w.e149, w.e150, w.e151, w.e152, w.e153, w.e154, w.e155, w.e156, w.e157, w.e158, w.e159, w.e160, w.e161, w.e162, w.e163, w.e164, w.e165, w.e166, w.e167, w.e168, w.e169, w.e170, w.e171, w.e172, w.e173, w.e174, w.e175, w.e176, w.e177, w.e178, w.e179, w.e180, w.e181, w.e182, w.e183, w.e184, w.e185, w.e186, w.e187, w.e188, w.e189, w.e190, w.e191, w.e192, w.e193, w.e194, w.e195, w.e196, w.e197, w.e198, w.e199, w.e200, w.e201, w.e202, w.e203, w.e204, w.e205, w.e206, w.e207, w.e208, w.e209, w.e210, w.e211, w.e212, w.e213, w.e214, w.e215, w.e216, w.e217, w.e218, w.e219, w.e220, w.e221, w.e222, w.e223, w.e224, w.e225, w.e226, w.e227, w.e228, w.e229, w.e230, w.e231, w.e232, w.e233, w.e234, w.e235, w.e236, w.e237, w.e238, w.e239, w.e240, w.e241, w.e242, w.e243, w.e244, w.e245, w.e246, w.e247, w.e248, w.e249, w.e250, w.e251, w.e252, w.e253, w.e254, w.e255, w.e256, w.e257, w.e258, w.e259, w.e260, w.e261, w.e262, w.e263, w.e264, w.e265, w.e266, w.e267, w.e268, w.e269, w.e270, w.e271, w.e272, w.e273, w.e274, w.e275, w.e276, w.e277, w.e278, w.e279, w.e280, w.e281, w.e282, w.e283, w.e284, w.e285, w.e286, w.e287, w.e288, w.e289, w.e290, w.e291, w.e292, w.e293, w.e294, w.e295, w.e296, w.e297, w.e298, w.e299])
}
pub fn choice(c: &Choice) -> (usize, u32) {
    match c {
        Choice::V0(x) => (0, *x),
        Choice::V1(x) => (1, *x),
        Choice::V2(x) => (2, *x),
        Choice::V3(x) => (3, *x),
        Choice::V4(x) => (4, *x),
        Choice::V5(x) => (5, *x),
        Choice::V6(x) => (6, *x),
        Choice::V7(x) => (7, *x),
        Choice::V8(x) => (8, *x),
        Choice::V9(x) => (9, *x),
        Choice::V10(x) => (10, *x),
        Choice::V11(x) => (11, *x),
        Choice::V12(x) => (12, *x),
        Choice::V13(x) => (13, *x),
        Choice::V14(x) => (14, *x),
        Choice::V15(x) => (15, *x),
        Choice::V16(x) => (16, *x),
        Choice::V17(x) => (17, *x),
        Choice::V18(x) => (18, *x),
        Choice::V19(x) => (19, *x),
        Choice::V20(x) => (20, *x),
        Choice::V21(x) => (21, *x),
        Choice::V22(x) => (22, *x),
        Choice::V23(x) => (23, *x),
        Choice::V24(x) => (24, *x),
        Choice::V25(x) => (25, *x),
        Choice::V26(x) => (26, *x),
        Choice::V27(x) => (27, *x),
        Choice::V28(x) => (28, *x),
        Choice::V29(x) => (29, *x),
        Choice::V30(x) => (30, *x),
        Choice::V31(x) => (31, *x),
        Choice::V32(x) => (32, *x),
        Choice::V33(x) => (33, *x),
        Choice::V34(x) => (34, *x),
        Choice::V35(x) => (35, *x),
        Choice::V36(x) => (36, *x),
        Choice::V37(x) => (37, *x),
        Choice::V38(x) => (38, *x),
        Choice::V39(x) => (39, *x),
        Choice::V40(x) => (40, *x),
        Choice::V41(x) => (41, *x),
        Choice::V42(x) => (42, *x),
        Choice::V43(x) => (43, *x),
        Choice::V44(x) => (44, *x),
        Choice::V45(x) => (45, *x),
        Choice::V46(x) => (46, *x),
        Choice::V47(x) => (47, *x),
        Choice::V48(x) => (48, *x),
        Choice::V49(x) => (49, *x),
        Choice::V50(x) => (50, *x),
        Choice::V51(x) => (51, *x),
        Choice::V52(x) => (52, *x),
        Choice::V53(x) => (53, *x),
        Choice::V54(x) => (54, *x),
        Choice::V55(x) => (55, *x),
        Choice::V56(x) => (56, *x),
        Choice::V57(x) => (57, *x),
        Choice::V58(x) => (58, *x),
        Choice::V59(x) => (59, *x),
        Choice::V60(x) => (60, *x),
        Choice::V61(x) => (61, *x),
        Choice::V62(x) => (62, *x),
        Choice::V63(x) => (63, *x),
        Choice::V64(x) => (64, *x),
        Choice::V65(x) => (65, *x),
        Choice::V66(x) => (66, *x),
        Choice::V67(x) => (67, *x),
        Choice::V68(x) => (68, *x),
        Choice::V69(x) => (69, *x),
        Choice::V70(x) => (70, *x),
        Choice::V71(x) => (71, *x),
        Choice::V72(x) => (72, *x),
        Choice::V73(x) => (73, *x),
        Choice::V74(x) => (74, *x),
        Choice::V75(x) => (75, *x),
        Choice::V76(x) => (76, *x),
        Choice::V77(x) => (77, *x),
        Choice::V78(x) => (78, *x),
        Choice::V79(x) => (79, *x),
        Choice::V80(x) => (80, *x),
        Choice::V81(x) => (81, *x),
        Choice::V82(x) => (82, *x),
        Choice::V83(x) => (83, *x),
        Choice::V84(x) => (84, *x),
        Choice::V85(x) => (85, *x),
        Choice::V86(x) => (86, *x),
        Choice::V87(x) => (87, *x),
        Choice::V88(x) => (88, *x),
        Choice::V89(x) => (89, *x),
        Choice::V90(x) => (90, *x),
        Choice::V91(x) => (91, *x),
        Choice::V92(x) => (92, *x),
        Choice::V93(x) => (93, *x),
        Choice::V94(x) => (94, *x),
        Choice::V95(x) => (95, *x),
        Choice::V96(x) => (96, *x),
        Choice::V97(x) => (97, *x),
        Choice::V98(x) => (98, *x),
        Choice::V99(x) => (99, *x),
        Choice::V100(x) => (100, *x),
        Choice::V101(x) => (101, *x),
        Choice::V102(x) => (102, *x),
        Choice::V103(x) => (103, *x),
        Choice::V104(x) => (104, *x),
        Choice::V105(x) => (105, *x),
        Choice::V106(x) => (106, *x),
        Choice::V107(x) => (107, *x),
        Choice::V108(x) => (108, *x),
        Choice::V109(x) => (109, *x),
        Choice::V110(x) => (110, *x),
        Choice::V111(x) => (111, *x),
        Choice::V112(x) => (112, *x),
        Choice::V113(x) => (113, *x),
        Choice::V114(x) => (114, *x),
        Choice::V115(x) => (115, *x),
        Choice::V116(x) => (116, *x),
        Choice::V117(x) => (117, *x),
        Choice::V118(x) => (118, *x),
        Choice::V119(x) => (119, *x),
        Choice::V120(x) => (120, *x),
        Choice::V121(x) => (121, *x),
        Choice::V122(x) => (122, *x),
        Choice::V123(x) => (123, *x),
        Choice::V124(x) => (124, *x),
        Choice::V125(x) => (125, *x),
        Choice::V126(x) => (126, *x),
        Choice::V127(x) => (127, *x),
        Choice::V128(x) => (128, *x),
        Choice::V129(x) => (129, *x),
        Choice::V130(x) => (130, *x),
        Choice::V131(x) => (131, *x),
        Choice::V132(x) => (132, *x),
        Choice::V133(x) => (133, *x),
        Choice::V134(x) => (134, *x),
        Choice::V135(x) => (135, *x),
        Choice::V136(x) => (136, *x),
        Choice::V137(x) => (137, *x),
        Choice::V138(x) => (138, *x),
        Choice::V139(x) => (139, *x),
        Choice::V140(x) => (140, *x),
        Choice::V141(x) => (141, *x),
        Choice::V142(x) => (142, *x),
        Choice::V143(x) => (143, *x),
        Choice::V144(x) => (144, *x),
        Choice::V145(x) => (145, *x),
        Choice::V146(x) => (146, *x),
        Choice::V147(x) => (147, *x),
        Choice::V148(x) => (148, *x),
        Choice::V149(x) => (149, *x),
        Choice::V150(x) => (150, *x),
        Choice::V151(x) => (151, *x),
        Choice::V152(x) => (152, *x),
        Choice::V153(x) => (153, *x),
        Choice::V154(x) => (154, *x),
        Choice::V155(x) => (155, *x),
        Choice::V156(x) => (156, *x),
        Choice::V157(x) => (157, *x),
        Choice::V158(x) => (158, *x),
        Choice::V159(x) => (159, *x),
        Choice::V160(x) => (160, *x),
        Choice::V161(x) => (161, *x),
        Choice::V162(x) => (162, *x),
        Choice::V163(x) => (163, *x),
        Choice::V164(x) => (164, *x),
        Choice::V165(x) => (165, *x),
        Choice::V166(x) => (166, *x),
        Choice::V167(x) => (167, *x),
        Choice::V168(x) => (168, *x),
        Choice::V169(x) => (169, *x),
        Choice::V170(x) => (170, *x),
        Choice::V171(x) => (171, *x),
        Choice::V172(x) => (172, *x),
        Choice::V173(x) => (173, *x),
        Choice::V174(x) => (174, *x),
        Choice::V175(x) => (175, *x),
        Choice::V176(x) => (176, *x),
        Choice::V177(x) => (177, *x),
        Choice::V178(x) => (178, *x),
        Choice::V179(x) => (179, *x),
        Choice::V180(x) => (180, *x),
        Choice::V181(x) => (181, *x),
        Choice::V182(x) => (182, *x),
        Choice::V183(x) => (183, *x),
        Choice::V184(x) => (184, *x),
        Choice::V185(x) => (185, *x),
        Choice::V186(x) => (186, *x),
        Choice::V187(x) => (187, *x),
        Choice::V188(x) => (188, *x),
        Choice::V189(x) => (189, *x),
        Choice::V190(x) => (190, *x),
        Choice::V191(x) => (191, *x),
        Choice::V192(x) => (192, *x),
        Choice::V193(x) => (193, *x),
        Choice::V194(x) => (194, *x),
        Choice::V195(x) => (195, *x),
        Choice::V196(x) => (196, *x),
        Choice::V197(x) => (197, *x),
        Choice::V198(x) => (198, *x),
        Choice::V199(x) => (199, *x),
        Choice::V200(x) => (200, *x),
        Choice::V201(x) => (201, *x),
        Choice::V202(x) => (202, *x),
        Choice::V203(x) => (203, *x),
        Choice::V204(x) => (204, *x),
        Choice::V205(x) => (205, *x),
        Choice::V206(x) => (206, *x),
        Choice::V207(x) => (207, *x),
        Choice::V208(x) => (208, *x),
        Choice::V209(x) => (209, *x),
        Choice::V210(x) => (210, *x),
        Choice::V211(x) => (211, *x),
        Choice::V212(x) => (212, *x),
        Choice::V213(x) => (213, *x),
        Choice::V214(x) => (214, *x),
        Choice::V215(x) => (215, *x),
        Choice::V216(x) => (216, *x),
        Choice::V217(x) => (217, *x),
        Choice::V218(x) => (218, *x),
        Choice::V219(x) => (219, *x),
        Choice::V220(x) => (220, *x),
        Choice::V221(x) => (221, *x),
        Choice::V222(x) => (222, *x),
        Choice::V223(x) => (223, *x),
        Choice::V224(x) => (224, *x),
        Choice::V225(x) => (225, *x),
        Choice::V226(x) => (226, *x),
        Choice::V227(x) => (227, *x),
        Choice::V228(x) => (228, *x),
        Choice::V229(x) => (229, *x),
        Choice::V230(x) => (230, *x),
        Choice::V231(x) => (231, *x),
        Choice::V232(x) => (232, *x),
        Choice::V233(x) => (233, *x),
        Choice::V234(x) => (234, *x),
        Choice::V235(x) => (235, *x),
        Choice::V236(x) => (236, *x),
        Choice::V237(x) => (237, *x),
        Choice::V238(x) => (238, *x),
        Choice::V239(x) => (239, *x),
        Choice::V240(x) => (240, *x),
        Choice::V241(x) => (241, *x),
        Choice::V242(x) => (242, *x),
        Choice::V243(x) => (243, *x),
        Choice::V244(x) => (244, *x),
        Choice::V245(x) => (245, *x),
        Choice::V246(x) => (246, *x),
        Choice::V247(x) => (247, *x),
        Choice::V248(x) => (248, *x),
        Choice::V249(x) => (249, *x),
        Choice::V250(x) => (250, *x),
        Choice::V251(x) => (251, *x),
        Choice::V252(x) => (252, *x),
        Choice::V253(x) => (253, *x),
        Choice::V254(x) => (254, *x),
        Choice::V255(x) => (255, *x),
        Choice::V256(x) => (256, *x),
        Choice::V257(x) => (257, *x),
        Choice::V258(x) => (258, *x),
        Choice::V259(x) => (259, *x),
        Choice::V260(x) => (260, *x),
        Choice::V261(x) => (261, *x),
        Choice::V262(x) => (262, *x),
        Choice::V263(x) => (263, *x),
        Choice::V264(x) => (264, *x),
        Choice::V265(x) => (265, *x),
        Choice::V266(x) => (266, *x),
        Choice::V267(x) => (267, *x),
        Choice::V268(x) => (268, *x),
        Choice::V269(x) => (269, *x),
        Choice::V270(x) => (270, *x),
        Choice::V271(x) => (271, *x),
        Choice::V272(x) => (272, *x),
        Choice::V273(x) => (273, *x),
        Choice::V274(x) => (274, *x),
        Choice::V275(x) => (275, *x),
        Choice::V276(x) => (276, *x),
        Choice::V277(x) => (277, *x),
        Choice::V278(x) => (278, *x),
        Choice::V279(x) => (279, *x),
        Choice::V280(x) => (280, *x),
        Choice::V281(x) => (281, *x),
        Choice::V282(x) => (282, *x),
        Choice::V283(x) => (283, *x),
        Choice::V284(x) => (284, *x),
        Choice::V285(x) => (285, *x),
        Choice::V286(x) => (286, *x),
        Choice::V287(x) => (287, *x),
        Choice::V288(x) => (288, *x),
        Choice::V289(x) => (289, *x),
        Choice::V290(x) => (290, *x),
        Choice::V291(x) => (291, *x),
        Choice::V292(x) => (292, *x),
        Choice::V293(x) => (293, *x),
        Choice::V294(x) => (294, *x),
        Choice::V295(x) => (295, *x),
        Choice::V296(x) => (296, *x),
        Choice::V297(x) => (297, *x),
        Choice::V298(x) => (298, *x),
        Choice::V299(x) => (299, *x),
    }
}
