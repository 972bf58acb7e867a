//! Contract language, part 5: builder, fragments, escaping iterator, buffers.

pub struct ParserS { pub config: Cfg }
pub struct BuilderS { pub config: Cfg }
pub struct FragS { pub events: Seq<Ev> }
/// `Escape`: the characters of a reference still to be yielded, and the text after it.
pub struct EscS { pub escape_ampersand: bool, pub chars: Seq<char>, pub escape_buffer: Option<Seq<char>> }
pub struct CowBufS { pub f0: Str }
pub struct TransformS { pub insertions: Seq<(int, Ev)>, pub deletions: Seq<int> }

/// The settings a builder (and a parser) starts from.
pub fn s_default_cfg() -> Cfg {
    Cfg {
        trim_whitespace: true, name_normalization: Norm::Unchanged, marked_section_handling: Msh::AcceptOnlyCharacterData,
        ignore_markup_declarations: false, ignore_processing_instructions: false, entity_fn: None, parameter_entity_fn: None,
    }
}
/// Parsing a whole document: the error's contents are not described here.
pub fn s_parse(cfg: Cfg, i: Str) -> Result<FragS, ()> {
    match s_document(i, cfg) { Ok((_, evs)) => Ok(FragS { events: evs }), Err(_) => Err(()) }
}
/// What an `Escape` still yields.
pub fn s_esc(e: EscS) -> Str {
    cat!(match e.escape_buffer { Some(b) => b, None => lit!("") }, s_escape(e.escape_ampersand, e.chars))
}
