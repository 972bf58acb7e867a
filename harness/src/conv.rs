//! Plain (serializable) events and configurations, and their conversions to the
//! crate's types and to the contract language's types.
use crate::contracts::{self as k, Ev, Str};
use serde::{Deserialize, Serialize};
use sgmlish::parser::{MarkedSectionHandling, NameNormalization};
use sgmlish::{Parser, SgmlEvent, SgmlFragment};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Hash)]
pub enum HEv {
    Decl(String, String),
    Pi(String),
    Section(String, String),
    Open(String),
    Attr(String, Option<String>),
    Close,
    XmlClose,
    End(String),
    Chars(String),
}
pub use HEv::*;

pub fn s(x: &str) -> Str { k::slit(x) }

impl HEv {
    pub fn ev(&self) -> Ev {
        match self {
            Decl(a, b) => Ev::Decl(s(a), s(b)),
            Pi(a) => Ev::Pi(s(a)),
            Section(a, b) => Ev::Section(s(a), s(b)),
            Open(a) => Ev::Open(s(a)),
            Attr(a, b) => Ev::Attr(s(a), b.as_ref().map(|b| s(b))),
            Close => Ev::Close,
            XmlClose => Ev::XmlClose,
            End(a) => Ev::End(s(a)),
            Chars(a) => Ev::Chars(s(a)),
        }
    }
    pub fn of(e: &Ev) -> HEv {
        match e {
            Ev::Decl(a, b) => Decl(a.string(), b.string()),
            Ev::Pi(a) => Pi(a.string()),
            Ev::Section(a, b) => Section(a.string(), b.string()),
            Ev::Open(a) => Open(a.string()),
            Ev::Attr(a, b) => Attr(a.string(), b.as_ref().map(|b| b.string())),
            Ev::Close => Close,
            Ev::XmlClose => XmlClose,
            Ev::End(a) => End(a.string()),
            Ev::Chars(a) => Chars(a.string()),
        }
    }
    /// `owned` chooses owned or borrowed strings in the built event.
    pub fn sgml(&self, owned: bool) -> SgmlEvent<'_> {
        let e = match self {
            Decl(a, b) => SgmlEvent::MarkupDeclaration { keyword: a.as_str().into(), body: b.as_str().into() },
            Pi(a) => SgmlEvent::ProcessingInstruction(a.as_str().into()),
            Section(a, b) => SgmlEvent::MarkedSection { status_keywords: a.as_str().into(), section: b.as_str().into() },
            Open(a) => SgmlEvent::OpenStartTag { name: a.as_str().into() },
            Attr(a, b) => SgmlEvent::Attribute { name: a.as_str().into(), value: b.as_ref().map(|b| b.as_str().into()) },
            Close => SgmlEvent::CloseStartTag,
            XmlClose => SgmlEvent::XmlCloseEmptyElement,
            End(a) => SgmlEvent::EndTag { name: a.as_str().into() },
            Chars(a) => SgmlEvent::Character(a.as_str().into()),
        };
        if owned {
            // built by hand: into_owned is itself under test
            match e {
                SgmlEvent::Character(t) => SgmlEvent::Character(String::from(&*t).into()),
                SgmlEvent::OpenStartTag { name } => SgmlEvent::OpenStartTag { name: String::from(&*name).into() },
                SgmlEvent::EndTag { name } => SgmlEvent::EndTag { name: String::from(&*name).into() },
                SgmlEvent::Attribute { name, value } => SgmlEvent::Attribute { name: String::from(&*name).into(), value: value.map(|v| String::from(&*v).into()) },
                e => e,
            }
        } else { e }
    }
    pub fn from_sgml(e: &SgmlEvent) -> HEv {
        match e {
            SgmlEvent::MarkupDeclaration { keyword, body } => Decl(keyword.to_string(), body.to_string()),
            SgmlEvent::ProcessingInstruction(a) => Pi(a.to_string()),
            SgmlEvent::MarkedSection { status_keywords, section } => Section(status_keywords.to_string(), section.to_string()),
            SgmlEvent::OpenStartTag { name } => Open(name.to_string()),
            SgmlEvent::Attribute { name, value } => Attr(name.to_string(), value.as_ref().map(|v| v.to_string())),
            SgmlEvent::CloseStartTag => Close,
            SgmlEvent::XmlCloseEmptyElement => XmlClose,
            SgmlEvent::EndTag { name } => End(name.to_string()),
            SgmlEvent::Character(a) => Chars(a.to_string()),
        }
    }
}
pub fn hevs(f: &SgmlFragment) -> Vec<HEv> { f.as_slice().iter().map(HEv::from_sgml).collect() }
pub fn fragment(es: &[HEv], owned: bool) -> SgmlFragment<'_> { es.iter().map(|e| e.sgml(owned)).collect::<Vec<_>>().into() }
pub fn sevs(es: &[HEv]) -> k::Seq<Ev> { es.iter().map(|e| e.ev()).collect::<Vec<_>>().into() }
pub fn of_sevs(es: &k::Seq<Ev>) -> Vec<HEv> { es.s().iter().map(HEv::of).collect() }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Hash)]
pub struct Conf {
    pub trim: bool,
    pub norm: u8,
    pub msh: u8,
    pub igd: bool,
    pub igp: bool,
    pub ent: bool,
    pub pent: bool,
}
impl Default for Conf {
    fn default() -> Self { Conf { trim: true, norm: 0, msh: 1, igd: false, igp: false, ent: false, pent: false } }
}

pub const ENTS: &[(&str, &str)] = &[
    ("lt", "<"), ("gt", ">"), ("amp", "&"), ("nbsp", "\u{a0}"), ("foo", "&lt;bar;"), ("empty", ""), ("ws", " \t x \n"),
    ("é", "E-acute"), ("a", "A"), ("a.b", "dotted"), ("#SPACE", " "), ("#RE", "\n"), ("x", "&#65;"), ("tag", "<b>"), ("quot", "\""),
    ("#xD800", "surrogate"), ("#1114112", "beyond"), ("#x", "bare-x"), ("b-c", "%C;"), ("long", "0123456789"),
];
pub const PENTS: &[(&str, &str)] = &[
    ("INC", "INCLUDE"), ("C", "CDATA"), ("R", "RCDATA"), ("I", "IGNORE"), ("two", " TEMP\tRCDATA "), ("none", ""), ("bad", "WRONG"),
    ("amp", "%C;"), ("a", "A"), ("foo", "&lt;"), ("é", "é%"),
];
pub fn look(t: &'static [(&'static str, &'static str)], n: &str) -> Option<&'static str> { t.iter().find(|(k, _)| *k == n).map(|(_, v)| *v) }

impl Conf {
    pub fn parser(&self) -> Parser {
        let mut b = Parser::builder()
            .trim_whitespace(self.trim)
            .name_normalization([NameNormalization::Unchanged, NameNormalization::ToLowercase, NameNormalization::ToUppercase][self.norm as usize])
            .marked_section_handling([MarkedSectionHandling::KeepUnmodified, MarkedSectionHandling::AcceptOnlyCharacterData, MarkedSectionHandling::ExpandAll][self.msh as usize])
            .ignore_markup_declarations(self.igd)
            .ignore_processing_instructions(self.igp);
        if self.ent { b = b.expand_entities(|n| look(ENTS, n)); }
        if self.pent { b = b.expand_parameter_entities(|n| look(PENTS, n)); }
        b.build()
    }
    pub fn cfg(&self) -> k::Cfg {
        let f = |on: bool, t: &'static [(&'static str, &'static str)]| -> Option<k::Fun<Str, Option<Str>>> { if on { Some(Rc::new(move |n: Str| look(t, &n.string()).map(s))) } else { None } };
        k::Cfg {
            trim_whitespace: self.trim,
            name_normalization: [k::Norm::Unchanged, k::Norm::ToLowercase, k::Norm::ToUppercase][self.norm as usize].clone(),
            marked_section_handling: [k::Msh::KeepUnmodified, k::Msh::AcceptOnlyCharacterData, k::Msh::ExpandAll][self.msh as usize].clone(),
            ignore_markup_declarations: self.igd,
            ignore_processing_instructions: self.igp,
            entity_fn: f(self.ent, ENTS),
            parameter_entity_fn: f(self.pent, PENTS),
        }
    }
}
/// The compiled parser's events.
pub fn real(conf: &Conf, input: &str) -> Result<Vec<HEv>, String> {
    conf.parser().parse(input).map(|f| hevs(&f)).map_err(|e| e.to_string())
}
/// The contract's events.
pub fn spec(conf: &Conf, input: &str) -> Result<Vec<HEv>, ()> {
    match k::s_document(s(input), conf.cfg()) { Ok((_, e)) => Ok(of_sevs(&e)), Err(_) => Err(()) }
}
