#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))
G, PA, AN, IX, HE = "src/dbml.pest", "src/parser/mod.rs", "src/analyzer/mod.rs", "src/analyzer/indexer.rs", "src/analyzer/helper.rs"
UN = "parse_dbml_unchecked(text)"; CH = "parse_dbml(text)"
SNAP = "The tests compare the printed tree of some 25 fixed files; "
VAL = "The validator tests only ask that a dozen fixed files be rejected for any reason (most of them for lacking a Project block); "

p("C01", "No input makes the library panic or hang",
  "For every UTF-8 text, the unchecked parse and the checked parse both return normally, with a result or an error; they never panic, abort, overflow the stack or run without end. Printing the returned error never panics either.",
  ["inputs"], "every text: well-formed, truncated, mutated, huge numbers, empty strings, any Unicode",
  SNAP + "no test feeds malformed text, boundary numbers, types without arguments or non-ASCII text through the checked entry point.",
  [PA, AN, IX, "src/analyzer/err.rs"], [("indexing, unwrap and unreachable! sites", PA), ("default value length checks; span construction for errors", AN)],
  observe=[UN, CH, "Display of the error"])
p("C02", "The accepted language is exactly the DBML grammar, over the whole input",
  "The unchecked parse succeeds exactly on texts that are, from first to last character, a sequence of well-formed project, table, enum, ref, table group and note declarations separated by blanks and comments. A text that is truncated, has anything left over, misses or doubles a delimiter, or holds an integer too large to represent, an unknown referential action or an unknown index type, is rejected as a whole and never partially accepted.",
  ["inputs"], "every text over the language's alphabet, accepted or not",
  SNAP + "there is no test that any text is rejected by the unchecked parser.",
  [G, PA], [("PEG grammar, SOI/EOI anchoring", G), ("tree to AST conversion and its rejections", PA)], observe=[UN])
p("C03", "Every declaration appears once, in source order, with its parts",
  "A successful parse returns one block per top-level declaration, of its kind and in source order, each with exactly the written name, schema, alias, note and ordered members (columns, enum values, group items, index definitions and their columns, project properties). Nothing is lost, duplicated, reordered or attached to another declaration; if a note or an index section is repeated in one declaration, the last one counts. The per-kind accessors return exactly the blocks of that kind, in order.",
  ["inputs"], "every accepted text, any number and order of declarations and members",
  SNAP + "they do not vary number, order, repetition or combination of optional parts.",
  [PA, "src/ast/schema.rs", G], [("parse_* folds over grammar pairs", PA), ("projects/tables/table_groups/refs/enums accessors", "src/ast/schema.rs")],
  state=[("blocks", "top-level blocks in order", "SchemaBlock.blocks")], observe=[UN, "SchemaBlock accessors"])
p("C04", "Settings are kept verbatim and interpreted correctly",
  "Every settings list is returned as the ordered list of its written keys with their optional values, whether or not a key is known. The derived fields say exactly what the list says: column primary key ('pk' or 'primary key'), unique, null / not null, increment, default, note and inline refs; index pk, unique, type, name and note; enum value note; relationship update and delete actions; project database type. A setting that is absent leaves its field at the default.",
  ["inputs"], "every accepted text and every combination, order and value kind of settings",
  SNAP + "most settings occur there once, alone or in one order.",
  [PA, "src/ast/table.rs", "src/ast/indexes.rs", "src/ast/refs.rs", "src/ast/project.rs"],
  [("parse_attribute and the key matches in parse_col_settings, parse_indexes_settings, parse_enum_value, parse_rel_settings, parse_project_decl", PA)], observe=[UN])
p("C05", "Literals and identifiers are decoded to what was written",
  "String literals in single or triple quotes, double-quoted identifiers and backquoted expressions yield their content verbatim apart from blanks right after the opening quote, including comment markers, line breaks and any Unicode. Integers, decimals, true/false/null, hex colours and bare words each yield their own kind of value with the written value; a bare word that merely begins with true, false or null is a bare word. A quoted and an unquoted identifier with the same characters yield the same name.",
  ["inputs"], "every literal and identifier in every position that allows one",
  SNAP + "they contain no string that begins with a comment marker, no word beginning with a keyword, no boundary numbers.",
  [G, PA, "src/ast/unit.rs"], [("string, number, boolean, hex and identifier rules", G), ("parse_value, parse_string_value, parse_ident, parse_attribute", PA)], observe=[UN])
p("C06", "Column types are decoded completely",
  "A column's type is returned with the written text, the type name qualified by its schema if one is written, its arguments in order as values, and its array dimensions in order, sized or unsized. The same type written quoted or unquoted, with dimensions inside or outside the quotes, yields the same name, arguments and dimensions.",
  ["inputs"], "every type expression: names, multi-word quoted names, schema qualifiers, 0..n arguments, 0..n dimensions",
  SNAP + "a few types, at most two dimensions.",
  [PA, G], [("parse_col_type, parse_col_type_arg, build_type_name_with_schema", PA), ("col_type rules", G)], observe=[UN])
p("C07", "Relationships are read with the right ends and cardinality",
  "Every relationship, written in short form, in a block, or inline on a column, is returned with its left and right end (schema, table, ordered columns), its symbol read as '<' one-to-many, '>' many-to-one, '-' one-to-one, '<>' many-to-many, its optional name and its settings. Ends are never swapped, merged or truncated, and an inline relationship stays with its own column, in order.",
  ["inputs"], "every relationship form, with 1..n columns per end, with or without schema, quoting, name and settings",
  SNAP + "they use few symbols and at most two columns per end.",
  [PA, "src/ast/refs.rs", G], [("parse_ref_decl, parse_ref_stmt, parse_ref_inline, parse_ref_ident", PA), ("Relation::from_str", "src/ast/refs.rs")], observe=[UN])
p("C08", "Source spans are exact, nested and consistent with the raw text",
  "Every node's span starts at the node's first character and ends after its last one (apart from blanks or comments that directly follow), on character boundaries and inside its parent's span, whatever multi-byte characters precede it. Wherever a node carries raw text, that text is the input at its span. The whole schema's span covers the whole input, and the tree carries the very input text.",
  ["inputs"], "every node of every accepted text, including texts with multi-byte characters",
  SNAP + "spans there are fixed numbers for a few layouts; nothing states the relation between span, raw text and input.",
  [PA, "src/parser/helper.rs"], [("s2r and span_range assignments", PA)], observe=[UN])
p("C09", "Layout, comments, keyword case and quoting do not change meaning",
  "Two texts that differ only in which blanks, line breaks or comments separate their tokens (a declaration keyword keeps the space after it, and a column type is one token), in the letter case of the declaration keywords, or in quoting identifiers that need no quotes, are both accepted or both rejected, by the unchecked and by the checked parse, and when accepted yield the same content apart from spans and raw texts.",
  ["inputs"], "every pair of layout variants of every document",
  SNAP + "each file is tried in one layout only.",
  [G, PA], [("implicit WHITESPACE/COMMENT, case-insensitive keywords, ident", G)], observe=[UN, CH])
p("C10", "The checked parse returns the unchecked tree or an error, nothing else",
  "If the checked parse succeeds, its tree is equal in every field to the tree the unchecked parse returns for the same text. If the unchecked parse fails, the checked parse fails with the same error. If the unchecked parse succeeds and the checked parse fails, its error is a semantic one.",
  ["inputs"], "every text",
  "No test compares the two entry points on the same text.",
  ["src/lib.rs", AN], [("parse_dbml = parse then analyze", "src/lib.rs")], observe=[UN, CH])
p("C11", "Results depend on the text alone",
  "Parsing is a pure function of the text: in any sequence of calls, on any number of threads at once, with any other texts parsed before or in between, the same text always gives the same tree, or the same error at the same place.",
  ["histories", "schedules", "inputs"], "every history of calls, sequential or concurrent, with repetitions",
  "Tests call each entry point once per file in a fresh process state.",
  ["src/lib.rs", PA, AN], [("no shared state; ordered collections only", AN)], observe=["histories of " + UN + " and " + CH])
p("C12", "Exactly one project block, with distinct property keys",
  "A checked document is rejected if it has no project block or more than one, wherever they stand, or if its project block repeats a property key. Otherwise the project rules do not reject it.",
  ["inputs"], "every document with 0..n project blocks at any position and any property lists",
  VAL + "none varies the number of projects or repeats a key.",
  [AN, HE], [("project checks in analyze", AN), ("check_prop_duplicate_keys", HE)], observe=[CH])
p("C13", "Names are unique within their scope",
  "A checked document is rejected if two tables share schema and name, two columns of a table share a name, two tables share an alias, two enums share schema and name, two values of an enum are equal, two table groups share a name, or a group lists the same table twice under any spelling (alias, qualified or unqualified). An omitted schema is the schema 'public' throughout, and names are compared exactly, quoted or not. Equal names in different scopes, or differing in letter case, are never rejected on this account.",
  ["inputs"], "every document, any order and spelling of the names",
  VAL + "no test isolates a single duplicate or shows that near-duplicates are accepted.",
  [IX], [("Indexer::index_table, index_enums, index_table_groups", IX)],
  state=[("schema_map, table_alias_map, table_group_map", "what has been declared so far", IX)], observe=[CH])
p("C14", "No settings list repeats a key",
  "A checked document is rejected if any settings list (of a table, a column, an enum value, an index definition, a relationship, or a table group) holds the same key twice, wherever that list is and whatever the values are. The same key in different lists, or different keys in one list, never causes rejection on this account.",
  ["inputs"], "every kind and position of settings list; any distance between the repetitions",
  VAL + "no test has a repeated key as its only fault.",
  [HE, IX, AN], [("check_attr_duplicate_keys", HE), ("its call sites", IX)], observe=[CH])
p("C15", "A table has at most one primary key, and it can be one",
  "A checked document is rejected if a table declares a primary key more than once (on columns, in its index section, or both), if a primary key column is declared null or is an array, or if a column is declared both null and not null. A table with no primary key, or with one declared once on a column or once (possibly composite) in the index section, is never rejected on this account.",
  ["inputs"], "every table, any placement and order of key declarations and settings",
  VAL + "none isolates these faults.",
  [AN], [("pk_list bookkeeping and column checks in analyze", AN)],
  state=[("pk_list", "primary key columns of the current table", IX)], observe=[CH])
p("C16", "Index sections are consistent with their table",
  "A checked document is rejected if an index definition names no column, names a column its table does not have, combines more than one of pk, unique and type, makes the same set of columns or expressions unique that a unique column or an earlier unique index of the table already covers, or repeats an earlier definition over the same ordered list when both have no settings or both give the same type. Expressions count as members by their text; definitions over unrelated lists, and equal definitions in different tables, are never rejected on this account.",
  ["inputs"], "every index section: single, composite, expression and mixed definitions in any order",
  VAL + "the one index file lacks a project, so it says nothing about indexes.",
  [AN], [("index checks in analyze", AN)], state=[("unique_list, indexed_list", "indexes seen so far in the table", IX)], observe=[CH])
p("C17", "Type arguments match the type",
  "A checked document is rejected if a column of a built-in type is given arguments that the type does not take: the character, bit, time and timestamp types under any of their names take exactly one, decimal and numeric exactly two, every other built-in type none, and all must be integers. Built-in types without arguments, or with the right number of integer arguments, are never rejected on this account.",
  ["inputs"], "every built-in type name and synonym, 0..n arguments of every value kind",
  VAL + "one file has wrong arguments, but no project.",
  [AN, "src/ast/table.rs"], [("argument checks in analyze", AN), ("ColumnTypeName::from_str", "src/ast/table.rs")], observe=[CH])
p("C18", "Default values fit their column",
  "A checked document is rejected if a default exceeds the range of a smallint or integer column under any synonym, is a string whose number of characters differs from the length of a char or bit column or exceeds that of a varchar or varbit column, is true or false on a column that is not boolean, is null on a column not declared null, or, for a column of an enum type, is a literal that is not one of that enum's values or the enum or its schema does not exist. Defaults within these bounds, expressions, and null on nullable columns of any type are never rejected on this account.",
  ["inputs"], "every type with every kind of default value, including boundary values and multi-byte strings",
  VAL + "boundary values, non-ASCII strings, missing length arguments and null enum defaults are never tried.",
  [AN, IX], [("default value checks in analyze", AN), ("lookup_enum_values", IX)], observe=[CH])
p("C19", "References and group members resolve to declared tables and columns",
  "A checked document is rejected if an end of a relationship names a schema, table or column that is not declared, or a table group lists a table that is not declared. A table is found equally by its alias, by its bare name if it is in schema 'public', and by its qualified name, wherever it is declared in the text; an alias is only ever meant by an unqualified name, and references that do resolve are never rejected on this account.",
  ["inputs"], "every relationship form and group item, with every spelling of every declared or undeclared target",
  VAL + "the accepted test document refers to tables only by bare name.",
  [IX], [("resolve_alias, resolve_ref_alias, lookup_table_fields, find_ref_table", IX)],
  state=[("schema_map, table_alias_map", "declared tables, columns and aliases", IX)], observe=[CH])
p("C20", "Related columns have equal number and equal types",
  "A checked document is rejected if the two ends of a relationship list different numbers of columns, or if any pair of corresponding columns differs in type, type arguments or array dimensions. Synonyms of one built-in type are the same type, pairs are formed in written order, and a relationship between columns of equal types is never rejected on this account.",
  ["inputs"], "every pair of types under all synonyms, arguments and dimensions, at every position of a composite",
  VAL + "no test has mismatched columns as its only fault.",
  [IX, "src/ast/table.rs"], [("IndexedRef::validate_ref_type", IX), ("ColumnTypeName::from_str", "src/ast/table.rs")], observe=[CH])
p("C21", "The referenced side of a relationship is a key",
  "A checked document is rejected if the 'one' side of a one-to-many or many-to-one relationship is not a key, if neither side of a one-to-one is, or if not both sides of a many-to-many are. A single column is a key if it is primary or unique by its settings or by a one-column index; several columns are a key if one pk or unique index covers exactly that set in any order. Relationships that meet this are never rejected on this account.",
  ["inputs"], "every cardinality, key placement and arity, either direction, inline or not",
  VAL + "the accepted document holds four many-to-one relationships over primary or unique columns.",
  [IX], [("key checks in IndexedRef::validate_ref_type", IX)], observe=[CH])
p("C22", "No two relationships claim the same foreign key",
  "A checked document is rejected if two relationships have the same column set, in the same table, as their 'many' side (each of them one-to-many or many-to-one), or if two one-to-one or two many-to-many relationships join the same two column sets, in either direction, whether declared inline or not and however the tables are spelled. Relationships that differ in a side, or differ in kind otherwise, are never rejected on this account.",
  ["inputs"], "every pair of relationships in a document, any order, form and spelling",
  VAL + "no test has two relationships on one column.",
  [IX, AN], [("IndexedRef::occupy_same_column and the count in analyze", IX)], observe=[CH])
p("C23", "A rejection names a real fault and points at it",
  "Whenever the checked parse rejects a document that the unchecked parse accepts, its message names a rule that this document really breaks, with the right names and types in it, and its location lies inside the text of the offending declaration or setting (for duplicates, the repeated one). Every error's location lies within the text, for syntax errors too.",
  ["inputs"], "every rejected document, with one or several faults, anywhere in the text",
  VAL + "no test looks at the message or location of any error.",
  [AN, IX, "src/analyzer/err.rs"], [("throw_err call sites", AN), ("Err display texts", "src/analyzer/err.rs")], observe=[CH + " error message and location"])
p("C24", "A table's relations are all found and classified once",
  "For every accepted document and each of its tables, the relation query returns every relationship (inline or not) that involves the table, exactly once: as self relation if both ends are the table, as outgoing if only the left end is, as incoming if only the right end is, and no relationship of other tables. Spelling of ends (alias, qualified, unqualified) makes no difference.",
  ["inputs"], "every table of every accepted document",
  "No test calls it; it cannot even be reached without the 'utils' feature and an analyzed index.",
  ["src/utils/mod.rs", IX], [("get_table_refs", "src/utils/mod.rs"), ("IndexedRef::from_inline, From<RefBlock>", IX)],
  observe=["get_table_refs(table, analyzed index)"], hook="cfg(dbml_verif): a public function that analyzes a tree and runs get_table_refs")
p("C25", "Public text forms read and print consistently",
  "The public conversions from text accept exactly their documented spellings and map each to its own variant: column type names and synonyms, relationship symbols, referential actions, index types, database type, and true/false/null. Printing a referential action and reading it back gives the same action, and printing a value gives its plain written form (text without quotes, canonical number).",
  ["inputs"], "every spelling, every near-miss of a spelling, every printable value",
  "No test calls a conversion directly; parsed files contain few of the spellings.",
  ["src/ast/table.rs", "src/ast/refs.rs", "src/ast/indexes.rs", "src/ast/unit.rs", "src/ast/project.rs"],
  [("FromStr and ToString implementations", "src/ast/unit.rs")], observe=["FromStr / ToString of the public AST enums"])
p("C26", "The order of declarations does not matter to the checks",
  "Reordering the top-level declarations of a document never changes whether the checked parse accepts it: tables, enums, groups, relationships and the project may each be declared before or after whatever refers to them.",
  ["inputs"], "every document and every permutation of its declarations",
  "Each test file has one order.",
  [AN, IX], [("index first, validate later", AN)], observe=[CH])
p("C27", "The checked parse accepts exactly the well-formed documents",
  "The checked parse accepts a syntactically valid document if and only if it breaks none of the semantic rules: one project, unique names and setting keys, sound primary keys and indexes, type arguments, defaults, resolvable references, matching related types, keyed relationships without conflict. Faults are found in every table, enum, group and relationship of the document, not just the first, whatever else surrounds them.",
  ["inputs"], "every document, with many declarations and any combination of features",
  "One accepted document and a dozen rejected ones, nearly all rejected for lacking a project.",
  [AN, IX, HE], [("analyze: the phases in order, each over all declarations", AN)], observe=[CH])
p("C28", "Ways of writing one relationship are judged alike",
  "How a relationship is written does not matter to the checks: declared with Ref (short or long form, named or not) or inside a column's settings, read from either side (a.b < c.d is c.d > a.b), with its tables named by alias, by bare name or with their schema (public included), the checked parse accepts or rejects the document alike.",
  ["inputs"], "every document and every way of writing each of its relationships",
  "No test writes one relationship in two ways.",
  [IX, AN, PA], [("IndexedRef::from, from_inline, create", IX)], observe=[CH])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
