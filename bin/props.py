"""What each property's check decides: contracts, theorems, assurance."""
RAW = 'parser_raw_'
P = {}


def prop(pid, obligations, own=None, lemmas=(), level='proof', note='', technique='deductive verification (Verus) of contracts on functions extracted from /repo on every run', **kw):
    P[pid] = dict(obligations=obligations, own=obligations if own is None else own, lemmas=list(lemmas), level=level, level_note=note, technique=technique, **kw)


def na(pid, why):
    P[pid] = dict(not_applicable=why)


def raw(s):
    return [RAW + x for x in s.split()]


def ev(s):
    return ['parser_events_' + x for x in s.split()]


def ent(s):
    return ['entities_' + x for x in s.split()]


PARSE = ['parser_parse', 'parser_Parser_parse', 'parser_Parser_parse_with_detailed_errors', 'parser_Parser_new', 'parser_Parser_builder', 'parser_ParserBuilder_build', 'parser_ParserBuilder_parse', 'parser_ParserBuilder_into_config']
DOC = ['parser_events_document_entity'] + PARSE
LOOPS = ent('expand_entities expand_entities__loop0 expand_parameter_entities expand_parameter_entities__loop0')
ITER = ev('EventIter_empty EventIter_once EventIter_start_tag EventIter_from_iter EventIter_next EventIter_len')
SPACES = ['parser_util_comments_and_spaces', 'parser_util_take_until_terminated', 'parser_util_spaces']

prop('C01', DOC + ITER, own=ITER + raw('name name_start is_name_char is_name_start_char open_start_tag close_start_tag xml_close_empty_element empty_start_tag end_tag') + ev('open_start_tag close_start_tag xml_close_empty_element empty_start_tag end_tag start_tag'))
prop('C02', DOC + ITER, own=raw('text plain_text') + ev('text content content_item document_entity EventIter_next'))
prop('C03', DOC + LOOPS, own=raw('marked_section_start_and_keywords marked_section_body_character_data marked_section_body_ignore marked_section_end') + ev('marked_section_declaration marked_section_body marked_section_body_include'))
prop('C04', ['marked_sections_MarkedSectionStatus_from_keywords', 'marked_sections_MarkedSectionStatus_from_str', 'parser_MarkedSectionHandling_parse_keywords'] + ev('marked_section_declaration'),
     own=['marked_sections_MarkedSectionStatus_from_keywords', 'marked_sections_MarkedSectionStatus_from_str', 'parser_MarkedSectionHandling_parse_keywords'])
prop('C05', LOOPS + ent('expand_characters'), own=LOOPS + ent('expand_characters entity_ref'))
prop('C06', LOOPS + ent('expand_characters char_ref entity_or_char_ref entity_ref'), own=ent('char_ref entity_or_char_ref entity_ref'))
prop('C08', DOC, own=raw('attribute attribute_parse_value attribute_value quoted_attribute_value unquoted_attribute_value') + ev('attribute'))
prop('C10', DOC + ['parser_ParserConfig_trim', 'text_is_sgml_whitespace'], own=['parser_ParserConfig_trim', 'text_is_sgml_whitespace'] + ev('text marked_section_body'))
prop('C11', DOC + ['parser_NameNormalization_normalize'], own=['parser_NameNormalization_normalize'] + ev('open_start_tag end_tag attribute'))
prop('C18', DOC + SPACES, own=raw('comment comment_declaration') + SPACES + ev('prolog'))
ESC = ['text_escape', 'text_Escape_new', 'text_Escape_set_escape_ampersand', 'text_Escape_next', 'text_Escape_size_hint', 'text_Escape_fmt']
BUILDER = ['parser_ParserConfig_default', 'parser_ParserBuilder_new'] + ['parser_ParserBuilder_' + x for x in 'trim_whitespace name_normalization lowercase_names uppercase_names expand_entities expand_parameter_entities marked_section_handling expand_marked_sections ignore_markup_declarations ignore_processing_instructions build parse into_config'.split()]
FRAG = ['fragment_SgmlFragment_' + x for x in 'len as_slice into_vec iter into_owned from into_iter ref_into_iter fmt'.split()]
prop('C07', ESC + ['SgmlEvent_fmt', 'entities_expand_characters'], own=ESC + ['SgmlEvent_fmt'])
prop('C09', ['SgmlEvent_fmt'] + DOC, own=['SgmlEvent_fmt'])
TRANS = ['transforms_transform_Transform_' + x for x in 'new is_empty remove_at insert_at apply apply__loop0 apply__loop1'.split()]
NET = ['transforms_normalize_end_tags_normalize_end_tags', 'transforms_normalize_end_tags_normalize_end_tags__loop0']
prop('C12', NET + TRANS, own=NET + ['text_is_blank'])
prop('C13', TRANS)
prop('C17', BUILDER + PARSE, own=BUILDER + PARSE + ['parser_ParserConfig_trim'] + ev('markup_declaration processing_instruction'))
prop('C19', ['SgmlEvent_into_owned', 'fragment_SgmlFragment_into_owned', 'fragment_SgmlFragment_from', 'fragment_SgmlFragment_into_vec', 'fragment_SgmlFragment_as_slice', 'fragment_SgmlFragment_into_iter', 'fragment_SgmlFragment_ref_into_iter', 'fragment_SgmlFragment_iter', 'fragment_SgmlFragment_len'])
prop('C21', ['SgmlEvent_fmt', 'fragment_SgmlFragment_fmt'] + PARSE, own=['SgmlEvent_fmt', 'fragment_SgmlFragment_fmt'])
ERR = ['parser_error_ContextualizedError_' + x for x in 'from_error_kind from_char from_external_error append add_context'.split()] + ['parser_error_LocatedLine_locate', 'parser_error_LocatedLine_fmt', 'parser_error_ContextualizedError_describe', 'parser_error_ContextualizedError_describe__loop0']
prop('C14', ERR + PARSE, own=ERR, lemmas=['l_located', 'l_caret'])
def de(s):
    return ['de_SgmlDeserializer_' + x for x in s.split()]


def des(s):
    return ['de_SgmlDeserializer_refmut_deserialize_' + x for x in s.split()]


POP = de('push_elt pop_elt pop_elt__loop0 normalize_at_cursor advance')
CONT = de('advance_to_content advance_to_content__loop0 peek_content_type peek_content_type__loop0')
TEXT = de('consume_text consume_text__loop0') + ['de_buffer_CowBuffer_new', 'de_buffer_CowBuffer_push_cow']
NUMS = des('i8 i16 i32 i64 u8 u16 u32 u64 f32 f64')
STRS = des('str string char bytes byte_buf identifier')
MAPS = ['de_MapAccess_next_key_seed', 'de_MapAccess_next_key_seed__loop0', 'de_MapAccess_next_value_seed']
SEQS = ['de_SeqAccess_next_element_seed', 'de_SeqAccess_next_element_seed__loop0']
ENUMS = ['de_EnumAccess_' + x for x in 'variant_seed unit_variant newtype_variant_seed tuple_variant struct_variant'.split()]
ENTRY = ['de_from_fragment', 'fragment_SgmlFragment_deserialize']
STRUCT = ENTRY + de('from_fragment do_map') + des('map struct seq tuple tuple_struct option newtype_struct unit unit_struct ignored_any any enum')
prop('C15', POP + CONT + TEXT + STRUCT + MAPS + SEQS + ENUMS + STRS + NUMS + des('bool'), own=POP + CONT + STRUCT + MAPS + SEQS + ENUMS,
     lemmas='l_pop l_push l_enter_leave l_element g_scalar g_do_map g_skip g_unit_any g_seq g_enum g_map_new g_key g_value g_elem g_variant g_variants l_pop_closes l_skip_closes'.split())
prop('C16', ENTRY + POP + TEXT + STRS + MAPS + de('do_map peek_content_type peek_content_type__loop0') + des('any unit option newtype_struct'), own=TEXT + STRS + MAPS,
     lemmas='l_text l_consume l_text_total l_consume_total g_map_new g_key g_value'.split())
prop('C20', ENTRY + POP + TEXT + NUMS + des('bool'), own=NUMS + des('bool'), lemmas='l_bool l_truth l_number l_consume'.split())
# Theorems over the contracts (proofs/theorems*.rs): the property statements themselves.
THEOREMS = {
    'C01': 't_document_wf',
    'C02': 't_text_run',
    'C03': 't_cdata t_rcdata t_kept_chars t_ignore t_ignore_only t_ignore_nests t_kept_extent t_include',
    'C04': 't_keywords',
    'C05': 't_expand_prefix t_expand_none t_expand_ref',
    'C06': 't_decimal t_hexadecimal t_number_bound t_param_names',
    'C07': 't_escape_expand t_escape_expand_off t_escape_plain t_escape_amps t_escape_char t_escape_keeps',
    'C08': 't_quoted t_unquoted',
    'C09': 't_attr_round',
    'C10': 't_trim',
    'C11': 't_document_names',
    'C12': 't_net_balanced t_net_placed t_net_unchanged t_net_empty',
    'C13': 'l_apply_none t_apply_split t_apply_insert t_apply_remove t_apply_append',
    'C14': 't_error_places',
    'C15': 't_document_wf t_leave_element t_skip_one t_map_one t_scalar_one t_any_one t_list_inside t_enum_inside t_key_inside t_value_inside t_item_inside t_variant_inside',
    'C16': 't_text_value t_text_read t_catch_all t_catch_all_value',
    'C17': 't_document_ignore',
    'C18': 't_comment_first t_comment_after t_comment_prolog t_comment_form t_comment_none t_comment_local',
    'C20': 't_flag_attribute t_flag_element t_number_whole t_number_exact',
    'C21': 't_print_parse t_print_back t_show_delimiters',
}
for k, v in THEOREMS.items():
    P[k]['lemmas'] += v.split()
BASE = ('Unbounded proof, redone from the source of /repo on each run: Verus accepts the contract of every function listed in the evidence and the theorems that state the property over them. '
        'Trusted: Verus and Z3, the extraction in tools/ (cross-checked each run by running the compiled crate against the same contracts), and the assumed contracts on std, nom and serde named in the evidence (compared with std and nom each run where executable). ')
NOTES = {
    'C01': 'No panics of the tag parsers are included; deep nesting of sections can overflow the stack and is not modelled.',
    'C02': 'Text runs are fixed by t_text_run; that items are laid end to end is the contract of content and document_entity.',
    'C03': 'Equality of an INCLUDE section with a stand-alone parse of its body is searched only; the proof gives the events of the content parser up to the own end mark. Equal extent kept/expanded is proved for defined references.',
    'C04': 'Complete: acceptance, status and refused keywords for every text and mode.',
    'C05': 'The lookup is taken to be a function (same name, same answer). Result, error name and range are proved; the order of lookup calls is observed by the search.',
    'C06': 'Complete for numbers up to 2^32-1; longer ones by t_number_bound. char::from_u32 and from_str_radix are assumed and compared with std.',
    'C07': 'Round trip with ampersand escaping on, and with it off for text without an ampersand. Iterator bounds for every state.',
    'C08': 'Value extents and expansion by t_quoted and t_unquoted; order and repeats by the contract of the start tag.',
    'C09': 'Names are valid names and name case is unchanged (as in the statement, the same name comes back).',
    'C10': 'Edges by t_trim; that nothing else is trimmed by the equality contracts of the other events.',
    'C11': 'The Unicode case mapping itself is that of std (uninterpreted, with axioms checked over every character).',
    'C12': 'For event lists whose start tags are complete groups, which t_document_wf proves of every parsed document. t_net_placed proves where each implied end tag stands; which end tags cannot be paired is the rule of the contract.',
    'C13': 'The edits are applied as s_apply says, for every recording order; t_apply_split, t_apply_insert, t_apply_remove and t_apply_append prove what each recorded edit does to the result, untouched events keeping their order; the stable sort is that of std.',
    'C14': 'Positions, lines, carets, elision and absence of panics in describing are proved for any recorded places inside the input; that the places lie inside the input is assumed of nom and searched. The contract also fixes the wording.',
    'C15': 'For visitors and seeds that act only through what they are given and pass errors on, any composition of them; stack depth and the state after an error are left open.',
    'C16': 't_text_value and t_text_read: exactly the character data before the own end tag. Borrowed and owned text are one value in the extraction; that they are treated alike is searched.',
    'C17': 'Complete for the builder and for ignored events on every input.',
    'C18': 'Theorems hold at the point where the declaration stands; whole documents with comments added are searched.',
    'C19': 'Equality of events and sequences; ownership has no other meaning in the extraction.',
    'C20': 'The number parse is the one of std (uninterpreted).',
    'C21': 't_print_parse is about every printable event list; t_print_back about every document a default parse accepts (text joined) that has no declarations or sections; t_show_delimiters about the printed form of every event.',
}
for k, v in NOTES.items():
    P[k]['level_note'] = BASE + v
    P[k]['theorems'] = sorted(set(P[k]['lemmas']))
