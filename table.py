"""Per property: cargo feature of its harness module, quick and thorough entries.

An entry is NAME or (NAME, seconds). Quick entries run in both tiers. The
budget is a cap: an entry that exhausts it is reported as incomplete in the
evidence file, never as completed."""

import re

def names(prefix, text):
    out = []
    for w in text.split():
        n, _, t = w.partition(":")
        out.append((prefix + n, int(t) if t else 0))
    return out

P = {}

def prop(pid, feature, prefix, quick, thorough, functions, bounds, outside):
    P[pid] = dict(feature=feature, quick=names(prefix, quick), thorough=names(prefix, thorough),
                  functions=functions, bounds=bounds, outside=outside)

prop("R01", "p_total", "h_total_",
     "raw3 raw4 prolog3 prolog4 misc3 root3 tag3 tag4 content3 content4 child2 text3 text4 attr3 attr4 num3 "
     "kind3 kind4 union2 union3 word3 sub3 cdata4 entity3 entity4 ns3 after3 after5 mutate careless3 careless4 "
     "carehole3 carehole4 "
     "len0 len1 len2 len3 len4 len5 len6 len7 len8 len9 len10 len11 many40 many120 very_many",
     "raw5 content5 careless5",
     "static_xml::read and the derived/hand-written Deserialize code of the harness types, down to xml-rs",
     "up to 5 unconstrained bytes at each of ~20 places of a document (start, prolog, tag, attribute, content, "
     "entity, CDATA, namespace declaration, after the root), any one byte of a full document replaced; texts and names of every "
     "length up to 70 ending in characters of any width, up to 300 attributes, children or levels",
     "more unconstrained bytes at once, other harness types")

prop("R02", "p_names", "h_names_",
     "element1 element2 known attr0 attr1 attr2 holder many0 many1 many2 many3 raw shapes0 shapes1 shapes2 shapes3 blank long scopes20 scopes300 wide_elems wide_enum wide_attrs", "",
     "field and attribute matching of derived Deserialize/SerializeRoot, ExpandedNameRef::from_xml_name",
     "element local names of 1-2 free characters; every combination of prefix/default declarations and uses out of "
     "the enumerated ones over 3 URIs, 7 fields; names up to 250 characters, up to 300 prefixes in scope, types of up to 270 fields or variants",
     "free characters in namespace URIs and attribute names (hashed keys; concrete there), longer names")

prop("R03", "p_card", "h_card_",
     "children3 children4 children5 complex3 complex4 attrs3 attrs5 repeat40 wide0 wide1 apart", "wide2:200",
     "derived Deserialize: field stores, finalization",
     "every sequence of up to 5 children out of the field kinds and unknown ones, every subset of 5 attributes; up to two of 270 fields missing or repeated, up to 1000 elements apart",
     "longer sequences, other field types")

prop("R04", "p_choice", "h_choice_",
     "skipread3 skipread4 skipwrite root2 root3 root4 two3 two4 two5 takers of_many two_of_many often", "",
     "derived Deserialize/Serialize of choice enums and flattened fields",
     "every sequence of up to 5 children over the variants and fields of the harness types, enums of 270 variants, up to 300 repetitions",
     "longer sequences, other types")

prop("R05", "p_skip", "h_skip_",
     "one two deep1 deep2 derived1 derived2 far_levels far_levels_deep far_children far_children_deep far_attrs far_texts", "three:240",
     "ElementReader::read_to and the element stack, derived visitors",
     "up to 3 children with every choice of what a visitor does with each (take, ignore, partly read), nested to depth 3; unread content up to 300 levels deep, children, attributes or texts long",
     "more children or deeper nesting")

prop("R06", "p_text", "h_text_",
     "root1 root2 root3 long40 cdata8 comment8 entity8 fields2 fields3 child2 child3 attr3 far far_wide pieces", "attr4 root4 root5:300",
     "Deserialize for text types, characters handling",
     "every sequence of up to 5 pieces (free character, white space, CDATA, comment, PI, entity, character reference) "
     "in a text element, up to 4 in an attribute; a piece after up to 8193 bytes or 1025 pieces",
     "longer sequences, free non-ASCII characters other than those enumerated")

prop("R07", "p_ws", "h_ws_",
     "preserve8 replace6 replace10 replace12 collapse0 collapse1 collapse2 collapse3 collapse4 collapse5 collapse6 "
     "collapse7 collapse8 collapse10 collapse12 collapse14 collapse16 wide2 wide3 wide4 wide5 wide6 long1 long2 long3 "
     "long4 long5 many derived3 derived4 host3 host4 host6",
     "derived7 replace16 collapse18 collapse20:300",
     "static_xml::WhiteSpace normalization (all three modes)",
     "all strings of up to 16 bytes (quick) / 20 bytes (thorough) of ASCII, 6 code points of any width, 5 free bytes "
     "inside a long concrete string",
     "longer strings")

prop("R08", "p_prim", "h_prim_",
     "u8_any1 u8_any2 u8_any3 u8_any4 i8_any0 i8_any1 i8_any2 i8_any3 i8_any4 u8_digits5 i8_digits5 u16_digits6 "
     "i16_digits6 u16_any3 i16_any3 u32_any3 i32_any3 u64_any3 i64_any3 u128_any3 i128_any3 u8_bounds i8_bounds "
     "u16_bounds i16_bounds u32_bounds i32_bounds u64_bounds i64_bounds u128_bounds i128_bounds u8_text i8_text "
     "u16_text i16_text u64_text i64_text u128_text i128_text u8_padded i8_padded u16_padded i16_padded u32_padded i32_padded u64_padded i64_padded u128_padded i128_padded bool_padded bool1 bool2 bool3 bool_near bool_text host2 host3 host4",
     "bool4 bool5:120 u16_all:200 i16_all:200 u32_text u64_text_deep:200 i32_text i64_text_deep:200",
     "ParseText and ToText for bool and all integer types",
     "arbitrary strings of up to 4 bytes, digit strings of up to 6 digits, free last digits around every type's bounds; "
     "up to 300 leading zeros and white space characters; for writing every value of 8- to 32-bit types and windows of the wider ones",
     "longer lexical forms; floats")

prop("R09", "p_enums", "h_enums_",
     "restriction0 restriction1 restriction2 restriction3 restriction4 fixed one_off union0 union1 union2 union3 "
     "union_text members lengths std0 std2 std5 host1 host2 host3", "union4:300",
     "derive(ParseText, ToText)",
     "every string of up to 4 bytes plus every one-byte change of the variants' names, texts of every length up to 80; unions "
     "of 7 members with every combination of members accepting",
     "longer strings")

prop("R10", "p_errors", "h_errors_",
     "depth0 depth1 depth2 depth3 root truncated far beyond", "depth4 depth6:300",
     "static_xml::de::Error: stack and positions",
     "an error of every kind at every place of a document of depth up to 6, free names and line breaks; up to 300 levels, lines, columns or siblings, 70000 lines or columns",
     "deeper nesting")

prop("W01", "p_serns", "h_serns_",
     "chain1 chain2 chain3 prefixes1 prefixes2 urls1 urls2 siblings2 derived_top derived_mid derived_low derived_vec "
     "flattened inherit0 inherit1 inherit1_deep inherit2 crowd7 crowd20 crowd66", "crowd130:250 chain4 chain5:300 prefixes3:200 prefixes4:200 urls3:200 siblings3:200 derived_all:200 derived_vecs:200",
     "Serializer, ElementBuilder, namespace assignment",
     "chains of up to 5 nested elements with any requested prefixes/URIs out of 3-4, siblings, derived types; "
     "attributes in inherited namespaces under up to 2 re-declarations, up to 66 (thorough 130) namespaces on an element",
     "more namespaces or levels")


prop("W02", "p_escape", "h_escape_",
     "text3 text4 special3 text_wide text_long text_tricky mixed1 mixed2 mixed3 mixed_wide mixed_long mixed_trick attr3 "
     "text_mix2 text_mix3 text_mix4 text_runs text_huge mixed_mix2 fields_mix2 fields_runs attr_special3 fields2 fields3 fields_special fields_wide fields_tricky fields_long vec4",
     "fields_huge:250 mixed_huge:200 attr4 special4 text5 mixed_tricky:200 vec8:200",
     "ElementWriter::text, ElementBuilder::attribute, derived Serialize, xml-rs' escaping and its reading back",
     "every string of up to 5 free ASCII characters, 3-4 of the special ones, characters of any width, two of ~25 tricky "
     "pieces, free bytes in strings of 40 characters, next to other text and children; up to 4 of 10 pieces next to a fixed "
     "string of markup, runs of up to 150 of one character, up to 4200 bytes of characters of any width at any alignment",
     "longer strings of free characters")

prop("W03", "p_round", "h_round_",
     "plain0 plain1 plain2 nest0 nest1 choices flat0 flat1 tree3 tree5 tree7 deep20 wide20 spaces0 spaces1 spaces2 slots0 slots1 slots2 nums deep300 wide300 wide_elems wide_attrs wide_enum",
     "nest2:200 flat2:400 spaces3:300",
     "derived Serialize, SerializeRoot and Deserialize, Serializer, Deserializer",
     "every value of the harness types with free texts of one character, every optional part present or absent, up to 3 "
     "repetitions, trees of up to 7 nodes, depth and repetition up to 300, types of 270 fields or variants; in each kind of place one of 17 notable texts or two "
     "free letters, extremes of integers",
     "other types, longer texts")

prop("R11", "p_stream", "h_stream_",
     "chunks full full_stop bad dup torn after trash bytes short fail_derived fail_tree fail_careless fail_nothing "
     "cut_derived cut_tree cut_careless cut_nothing free1 free2 free2_tree free_fail long",
     "free3:120 full2:250 long2:250",
     "static_xml::read on a user's Read, Reader, down to xml-rs' lexer and its UTF-8 decoding",
     "documents of 60-150 bytes with every kind of event; up to 2 chunk boundaries anywhere, reads of 1-3 bytes, up to 2 "
     "runs of interruptions, one I/O error or end anywhere, up to 3 free bytes in between, four types reading",
     "more boundaries at once other than one byte at a time, other documents")

prop("R12", "p_envelope", "h_envelope_",
     "replaced0 replaced0_tree replaced0_nothing replaced0_careless replaced0_early replaced1 "
     "replaced1_careless replaced2 replaced3 replaced3_nothing inserted0 inserted0_careless inserted0_2 "
     "inserted1 inserted1_nothing inserted2 inserted3 cut0 cut0_careless cut0_early cut1 cut2 repeated0 "
     "repeated0_nothing repeated1_careless tokens0 tokens0_tree tokens0_nothing tokens0_careless "
     "tokens0_early tokens1 tokens1_early tokens2 after1 after2 after3 after4 after4_nothing after5 "
     "outside before1 before2 before3 second names1 names2 names2_nothing names3_careless padded1 "
     "padded1_tree spaced far",
     "padded2:300 padded2_tree:300 tokens1_2:300 tokens3_2:300",
     "Reader::root, Reader::end, return_to_depth and static_xml::read, down to xml-rs",
     "every one-byte change, and up to 4 free bytes inserted, at each place of several documents; tags, comments and so on of "
     "all shapes out of sequences of up to 3 of ~12 pieces, before, inside and after the root; up to 1025 comments, instructions, spaces or elements before, in or after the root",
     "more free bytes at once; leniencies of the parser inside one tag")

prop("R13", "p_dupattr", "h_dupattr_",
     "read2 read2_inner read3 kinds2 kinds3 kinds4 free1 padded read_wide write_wide write2 write3 write4 write5 derived0 derived1 derived2",
     "read4:120",
     "derived attribute stores, ElementBuilder::attribute",
     "up to 257 attributes with one again; every sequence of up to 4 attributes when reading, 5 when writing, out of 3 names under 4 prefixes bound to 3 URIs in "
     "every way",
     "more attributes or names at once")

prop("R14", "p_drop", "h_drop_",
     "attrs3 attrs4 attrs5 elems3 elems4 elems5 nest2 nest3 nest4 choice3 choice4 choice5 flat2 flat3 flat2_set flat3_set "
     "flat2_first hand3 hand4 many_fields many_values far_down texts2 texts3 careless2 careless3 cut_nest cut_flat cut_hand cut_texts cut_careless "
     "mutate_nest mutate_flat mutate_hand mutate_texts mutate_careless fail_nest fail_flat fail_hand fail_texts fail_careless",
     "nest2_1:120 attrs6:120 elems6:120 choice6:200 flat4:120 hand5:120 texts4:120 careless4:120",
     "derived visitors (output slots, finalize, Drop), DeserializeElementField/AttrField, static_xml::read",
     "sequences of up to 5 (quick) or 6 (thorough) children or attributes, good and bad, for every kind of field, flattened "
     "and hand-written ones, nested structs to depth 3; 70 fields, 257 repetitions, 200 levels; full documents cut anywhere, failing anywhere, or with any byte replaced",
     "longer sequences, panics inside user code")

prop("R15", "p_visitor", "h_visitor_",
     "chain1 chain1_late chain2 chain2_attr chain2_attrs chain3 chain4 siblings siblings1 content2 content3 content3_1 "
     "content4 content2_2 wishes1 wishes2 names1 names2 names3 values1 values2 values3 many6 many30 many_big deep5 deep20 deep_big ends",
     "chain3_attr:120 siblings2:300 content5:120 content6:120 content3_2:300 wishes3:200 values4:120",
     "ElementReader (name, expanded_name, namespace, depth, read_to, read_string), the calls of ElementVisitor",
     "chains of up to 4 elements and siblings with every way of declaring and using prefixes over 3 URIs, up to 6 pieces of "
     "content, nested to depth 3, up to 4 pieces of attribute value, free characters in names, values and text",
     "longer or deeper documents, other than 257 attributes or children and depth 257 with one free character")

prop("W04", "p_writer", "h_writer_",
     "content1 content2 fault0 fault1 deaf0 deaf1 room room_deaf trickle misuse2 misuse3 misuse4 misuse5 deep3 deep6 deep130 deep258 derived",
     "fault2:120",
     "Serializer, ElementBuilder, ElementWriter (drop, poison), WrappedWriter",
     "a fault of each kind at every write, every split of writes, every sequence of up to 5 steps of use or misuse, elements "
     "up to 6 (258 for regular patterns) deep, user code that ignores errors",
     "flushing of the writer after the end, mem::forget, more steps")

prop("W05", "p_opts", "h_opts_",
     "decl0 decl1 decl2 indent0 indent1 indent2 mixed2 mixed3 mixed4 order3 order5 order6 roots big8 big20 far",
     "decl3:120 indent3:120",
     "Serializer's options, ElementBuilder and ElementWriter under them",
     "all options, set in up to 6 steps in any order, over trees of up to 4 nodes, mixed content of up to 4 pieces, "
     "derived types, up to 257 repetitions or levels",
     "larger documents")
