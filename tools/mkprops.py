import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs or [],"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
L="parse-display-derive/src/lib.rs"; PB="parse-display-derive/src/parser_builder.rs"; FS="parse-display-derive/src/format_syntax.rs"
RU="parse-display-derive/src/regex_utils.rs"; BO="parse-display-derive/src/bound.rs"; SU="parse-display-derive/src/syn_utils.rs"
PL="parse-display/src/lib.rs"; H="parse-display/src/helpers.rs"; HS="parse-display/src/helpers_std.rs"; FR="parse-display/src/from_str_regex.rs"
W="parse-display-with/src/formats.rs"; RL=".codex/skills/prepare-release/scripts/prepare_release.rs"

p("C01","Display output is exactly what the format describes",
"For every struct or enum deriving Display and every value of it, the output is exactly the concatenation of the format's literal text (with {{ and }} unescaped), the renderings of the named, indexed or nested fields (through the field's own format if it has one) and variant names. When no format is written, a one-field struct renders its only field and a unit variant renders its name; a variant's own format takes precedence over the enum's. Every field is rendered from the field it names, whatever the field's position, name (raw identifiers included) or the number of fields.",
["programs","inputs"],"all type shapes x format templates within the size bound x all values of the domain",
"The tests fix about 60 hand-written types with one value each; the property ranges over all templates, shapes and values.",
[L],[("DisplayFormat parts","parse-display-derive/src/lib.rs DisplayFormat::parse/format_args"),("field resolution","VarBase::format_arg, field_expr, FieldKey"),("literal shortcut","FormatArgs::build_write")],["Display::fmt of derived types"])
p("C02","Format parameters mean what they mean in std::format!",
"Every fill, alignment, sign, #, 0, width, precision and format-trait parameter written in a placeholder is applied to the referenced value exactly as std::format! applies it, for a field, nested field, variant field, field-level {}, a field with a custom format, and an optional field's inner value. {:?} or another non-Display trait on {} of a struct or enum formats the value itself through that trait.",
["programs","inputs"],"every combination of the format_spec grammar over a small domain, at every placeholder position",
"The tests use six specs at a few positions; the grammar has tens of thousands of combinations times positions.",
[FS,L,H],[("FormatSpec::parse","parse-display-derive/src/format_syntax.rs"),("format_args","lib.rs DisplayFormat::format_args"),("Formatted / fmt_pointer / OptionFormatHelper","parse-display/src/helpers.rs")],["Formatter flags seen by the field's impl"])
p("C03","Format strings: exactly the well-formed ones are accepted",
"A format string is accepted when it is a sequence of literal text, {{, }} and placeholders {path} or {path:spec} whose path names an existing field and whose spec is a valid std format spec. Every other string is rejected at compile time with a diagnostic; the derive never panics and never silently accepts a malformed string.",
["inputs","programs"],"every string up to the length bound over the format metacharacters, at type, variant and field level",
"Two compile-fail tests; the language of format strings is infinite.",
[L,FS],[("DisplayFormat::parse","lib.rs"),("FormatSpec::parse","format_syntax.rs"),("FieldKey::from_str_deep","lib.rs")],["compiler diagnostics"])
p("C04","Variant names are styled by word, for every identifier",
"For each style, the name of a variant is its identifier (without r#) split into words at non-alphanumeric characters and before an uppercase ASCII letter that follows a character that is not one, each word ASCII-cased as the style says and joined by the style's separator; style none leaves the identifier alone. A variant's style overrides the enum's, and Display and FromStr use the same name.",
["inputs","programs"],"every identifier up to the length bound over {upper, lower, digit, _, non-ASCII} x all 13 styles",
"Each style is tested on six identifiers.",
[L],[("DisplayStyle::apply","lib.rs"),("DisplayStyle::from_helper_attributes","lib.rs")],["Display and FromStr of derived enums"])
p("C05","FromStr accepts exactly the strings that match the whole format",
"A derived FromStr succeeds exactly when the entire input matches the format - literal text literally, including every regex metacharacter, newline and non-ASCII character - with each placeholder matching any text, shortest first from left to right, and every captured text parses as its field's type. Each captured text goes to the field its placeholder names, and nothing before or after the format is tolerated.",
["programs","inputs"],"all templates within the size bound x all input strings up to the length bound over the template's alphabet",
"Tests try one or two strings per type; acceptance is a statement about all strings, and rejection is hardly tested.",
[PB,RU,HS],[("pattern construction","parser_builder.rs push_format/push_field/ParseFormat"),("anchoring","regex_utils.rs hirs_with_start_end"),("capture numbering","FieldEntry::set_capture, capture_index")],["from_str result"])
p("C06","Display and FromStr are inverse on unambiguous types",
"For every type deriving both traits whose placeholders are delimited by text that cannot occur in the neighbouring field's rendering, parsing the displayed text of any value returns that value. Conversely, for fields whose types print what they parse, displaying the result of a successful parse gives back the input. Both hold for derived types nested in derived types.",
["programs","inputs"],"type trees of nested derived types up to the depth bound x all values; all accepted strings up to the length bound",
"Two round-trip tests exist.",
[L,PB],[("shared helper attributes","lib.rs HelperAttributes"),("Display and FromStr code generation","lib.rs, parser_builder.rs")],["to_string().parse()"])
p("C07","An enum parses to the first variant that accepts the input",
"Parsing an enum yields a variant whose purely literal format equals the input if there is one, and otherwise the first declared variant whose format matches and whose fields all parse (and whose constructor expression accepts); a variant that fails never prevents a later one from being tried. Variants marked ignore are never produced, and no variant accepts means an error.",
["programs","inputs"],"all variant lists up to the length bound over a menu of overlapping variant formats x all strings",
"Tests contain few overlapping variants; fallthrough depends on order and on which field fails.",
[L,PB],[("derive_from_str_for_enum","lib.rs"),("build_parse_variant_code","parser_builder.rs")],["from_str result variant"])
p("C08","from_str(regex) patterns mean what the regex says",
"A regex on a struct, enum, variant or field is matched against its whole part of the input with ordinary regex semantics, named groups (dotted, numeric or P-style names included) fill the field they name, the empty name means the field itself or the variant name taken literally, and escaped group-like text is not a group. A field regex without groups replaces only the {} of the field's format or, with none, the whole field; the regex of the variant beats that of the enum, and a regex beats a display format.",
["programs","inputs"],"all placements of a menu of regexes (alternations, classes, flags, groups, escapes) x all strings",
"Each placement is tested with one regex and one or two strings.",
[PB,RU],[("push_regex","parser_builder.rs"),("to_hir_with_expand","regex_utils.rs"),("capture name rewriting","parser_builder.rs regex_capture")],["from_str result"])
p("C09","from_str_regex describes the strings its type can parse",
"For every derived type, a string is fully matched by from_str_regex() exactly when it matches the type's format (so every string from_str accepts is matched), also when the pattern is embedded in another type. For every built-in implementation, every string the type parses is matched and every matched string parses or fails only because its value is out of range; a field with regex_infer is matched by its type's pattern.",
["programs","inputs"],"derived types of the program space and all built-in impls x all strings up to the length bound; nesting of patterns to depth 2",
"Built-in impls are tested on a dozen strings with unanchored search; derived patterns are hardly tested.",
[FR,HS,PB,L],[("built-in patterns","from_str_regex.rs"),("Parser::new re_str","helpers_std.rs"),("build_from_str_regex_body / enum alternation","parser_builder.rs, lib.rs")],["FromStrRegex::from_str_regex, regex_infer fields"])
p("C10","Fields absent from the input get their default, others the input",
"With default on a struct, every field not set by the input has the value it has in the struct's Default; with default on a field (or the field listed in default_fields), an absent field has the field type's Default; field defaults take precedence over the struct's. A nested placeholder changes only the sub-field it names.",
["programs","inputs"],"all subsets of fields that appear in the format x placements of default x nested paths x all strings",
"A handful of combinations are tested with one string each.",
[PB,L],[("build_construct_code use_default","parser_builder.rs"),("build_setters / deep_captures","parser_builder.rs")],["from_str result"])
p("C11","from_str(new = ...) decides the value and can reject",
"With new, the expression sees every field's parsed value under the field's own name (_0, _1 for tuples) and the parse result is the value it returns; None or Err makes the struct's parse fail, or the enum go on to the next variant. This holds whatever the fields are called and however many there are.",
["programs","inputs"],"field name menus x orders x return kinds (value, Option, Result) x all strings",
"Eight tests with benign field names.",
[PB,PL],[("new_expr code","parser_builder.rs build_construct_code"),("IntoResult","parse-display/src/lib.rs")],["from_str result"])
p("C12","Optional fields: None is the omitted text, Some the inner value",
"An opt field displays nothing at all for None (its own format included) and, for Some, exactly what a non-optional field of the inner type with the same attributes displays. Parsing gives None exactly when the omitted form makes the whole input match first, and otherwise Some of the inner type's parse, with the field's custom format, regex and regex_infer applied to the inner type.",
["programs","inputs"],"templates with up to two opt fields x field attributes x all values and all strings",
"Seven tests, no mixture with other attributes.",
[L,PB,H],[("VarBase::FieldSome, OptionFormatHelper","lib.rs, helpers.rs"),("push_field opt repetition","parser_builder.rs"),("build_parse_capture_expr","parser_builder.rs")],["Display and FromStr"])
p("C13","Custom formats apply where declared and from_str attributes win",
"A field's with-format is used instead of the type's own Display or FromStr, its regex pattern limits what the field can match, and nothing else about the field changes. from_str attributes never influence Display, take precedence over display attributes for FromStr in whatever order they are written, and regex beats with, which beats regex_infer.",
["programs","inputs"],"all placements and orders of the attributes on fields x all values and all strings",
"Order and combination of attributes are not tested.",
[L,PB,HS,PL],[("HelperAttributes::from","lib.rs"),("Formatted, parse_with","helpers.rs"),("to_ast, Parser::new","helpers_std.rs")],["Display and FromStr"])
p("C14","Parsing is a function of its input under any history and schedule",
"The result of parsing depends only on the type and the input: not on what was parsed before, by which other type or type parameter, nor on other threads parsing at the same time, the first use included. No schedule deadlocks, and an initialisation that panicked leaves later parses unaffected.",
["schedules","histories","fault_sequences"],"all call histories up to the depth bound over a set of types; all interleavings of 2-3 threads up to the preemption bound; every initialisation failing once",
"No test uses threads or checks histories; lazily built parsers are shared statics.",
[PB,HS],[("static PARSER OnceLock","parser_builder.rs build_parse_code"),("Parser::new","helpers_std.rs")],["from_str results"],None,
[("PARSER","per type/variant lazily compiled regex, shared by all type parameters","generated from_str")])
p("C15","Parsing is total and its error names what failed",
"from_str never panics on any input: it returns a value or a ParseError. For a struct the error says which field's text failed to parse - the first one in the order the fields are converted - and is the generic parse failure when the text does not match the format; an enum reports the generic failure.",
["inputs","programs"],"all strings up to the length bound over an alphabet with multi-byte and control characters, on every program of the parsing spaces",
"Tests only look at Ok or Err for a few ASCII strings.",
[PB,PL],[("build_parse_capture_expr","parser_builder.rs"),("ParseError","parse-display/src/lib.rs")],["Err value of from_str"])
p("C16","Derived impls hold under exactly the documented bounds",
"Without bound attributes, the impl for a generic type requires exactly that the types of the generic fields used by the format implement the trait the placeholder asks for (FromStr for parsing); fields that are unused or have a custom format add nothing. bound(...) replaces these with the listed types and predicates, .. adds them back, display bounds serve FromStr unless from_str gives its own, and bounds on a variant or field replace those of that variant or field only.",
["programs","configurations"],"generic types x placements of bound attributes x instantiations with types implementing each subset of the traits",
"Tests check that some instantiation compiles, hardly ever that one is refused.",
[BO,SU,L,PB],[("Bounds, BoundsChild","bound.rs"),("GenericParamSet::contains_in_type","syn_utils.rs"),("format_arg bounds","lib.rs"),("build_bounds","parser_builder.rs")],["whether T: Display / T: FromStr holds"])
p("C17","Generated code works wherever the type can be written",
"The derives compile and behave the same whatever names surround the type: user items shadowing prelude names and macros, no implicit prelude, raw-identifier fields and variants, fields named like the derive's own variables, and a parse-display crate reached only through crate = path.",
["programs","configurations"],"all combinations of surrounding-name environments x features of the derive",
"One hygiene test and two crate-path tests.",
[L,PB,SU],[("absolute paths in quote!","lib.rs, parser_builder.rs"),("crate_path","lib.rs HelperAttributes")],["compilation and behaviour"])
p("C18","Without std, Display and literal parsing are the same",
"With default features off, every type deriving Display produces the same text as with them on, and types whose formats are purely literal still derive FromStr with the same result. No generated code of these needs std.",
["programs","configurations","inputs"],"the display program space and the literal parsing space in both feature configurations",
"The no-std test run covers only the hand-written display tests.",
[L,PL,H,"parse-display-derive/Cargo.toml"],[("cfg!(feature = std)","lib.rs"),("core paths","helpers.rs")],["Display and FromStr in a no_std crate"])
p("C19","Join formats print and parse delimited sequences",
"delimiter(d) and join(f, d) print the items in order, each in the item format, with exactly one delimiter between neighbours, and parse by splitting at every delimiter, failing if any item fails and keeping order and number of items. Printing then parsing a non-empty sequence gives it back when the delimiter occurs in the printed text only between the items; fmt_display and fmt_from_str call the given function and nothing else.",
["inputs"],"all sequences up to the length bound of items from a small domain x delimiters x container types; all strings up to the length bound",
"Nine tests with the same three numbers and one delimiter.",
[W],[("Join::write, Join::parse","formats.rs"),("Fmt, fmt_display, fmt_from_str","formats.rs")],["DisplayFormat::write, FromStrFormat::parse"])
p("C20","Misused attributes are refused with a diagnostic",
"A struct or enum whose attributes cannot work - unknown or missing field, missing format, a field captured twice, opt on a non-Option, default on an enum, {} or an empty capture in a struct, invalid regex or style, with together with another format trait - is refused at compile time with a diagnostic pointing into the offending item. The derive does not panic or crash the compiler, and does not refuse valid neighbours of these.",
["programs"],"all combinations of a menu of misuses at every level, and their valid neighbours",
"About fifteen compile-fail tests, one program each.",
[L,PB,SU,FS],[("bail!","syn_utils.rs"),("error paths","lib.rs, parser_builder.rs")],["compiler diagnostics"])
p("C21","Formatting failures are passed on, at every write",
"If the output sink fails at any write, or the formatting of any field fails, the derived Display (and every with-format helper) returns an error, has written exactly the part of the output that precedes the failure, and writes nothing after it. If nothing fails it returns success.",
["fault_sequences","programs"],"every write position of every program of the display space failing, and every field formatter failing",
"Tests only format into memory that never fails.",
[L,H,W],[("write! result returned","lib.rs build_write"),("OptionFormatHelper, Formatted","helpers.rs"),("Join::write","formats.rs")],["fmt::Result and sink contents"])
p("C22","Release preparation moves every changelog entry and nothing else",
"Preparing a version moves every Unreleased changelog entry, in order and under its category, into the new version's section, leaves empty category headings behind, keeps all older sections and links, and adds the compare link. It sets the package, lock and dependency versions and active documentation references to the new version and leaves deprecated-section links and unrelated files alone; a dry run or a refused request (bad version, version already released) changes nothing. Both a run and its dry run name the files that change; a request without a version changes nothing, shows the next patch, minor and major versions and recommends minor or, when only Fixed, Performance or Security has entries, patch.",
["histories","inputs","configurations"],"all sequences of up to three releases over a menu of changelog, documentation and repository states, dry-run and refused requests included",
"The release script has no tests.",
[RL],[("update_changelog, split_categories, update_changelog_links","prepare_release.rs"),("update_doc_text","prepare_release.rs"),("set_package_version, set_lock_package_version","prepare_release.rs")],["files of the prepared repository"],None,
[("repository files","CHANGELOG.md, manifests, Cargo.lock, docs","scratch repository")])
p("C23","Deriving adds no compiler warning",
"A type of which the compiler reports nothing gets no report when it derives Display and FromStr: none of the compiler's lints that are on by default, of clippy's default lints and of unsafe_code, missing_docs, unreachable_pub, missing_debug_implementations, elided_lifetimes_in_paths, single_use_lifetimes, unused_lifetimes, non_ascii_idents and keyword_idents. This holds for whatever attributes, fields, generics and bounds the type has, for a deprecated type, variant or field, and where the type itself is allowed what would be reported (an allow attribute on the type covers its derived impls). The one exception is the deprecation of default_fields, which is reported for the type that uses it.",
["programs","configurations"],"all programs of the other spaces, and items x attributes x shapes x surroundings, with the derives and with derives that do nothing",
"The tests are compiled with their own lint levels and nobody looks at the warnings of a derived type.",
[L,PB,SU,H],[("impl_trait, automatically_derived","parse-display-derive/src/syn_utils.rs"),("generated code: quote! and spans","lib.rs, parser_builder.rs"),("deprecated_default_fields_warnings","lib.rs")],["compiler diagnostics"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,x["id"]
print(len(P))
