#!/usr/bin/env python3
"""The properties, and from them properties.jsonl and MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ROOT = os.path.dirname(HERE)

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=("the value returned by the builder",)):
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


B, T, A, D, H = "src/builder.rs", "src/thing.rs", "src/builder/affordance.rs", "src/builder/data_schema.rs", "src/builder/human_readable_info.rs"

prop("P01", "Thing members given to the builder reach the built Thing unchanged",
     "Every member set on a Thing builder (context, id, @type, title(s), description(s), version, created, modified, support, base, links, forms, uriVariables, properties, actions, events, profile, schemaDefinitions) appears in the built Thing with exactly the given value, repeated calls of list-like setters keep all items in call order, and no call alters any other member. The TD 1.1 context is always present: alone it is a single value, together with others it is in the list in the order in which it was given.",
     ["inputs", "programs"], "every builder state, every argument value, every order of calls",
     "the unit tests build a few dozen fixed Things; a swapped, dropped or conditionally lost member only shows for member combinations they do not build",
     [B], [("setters of ThingBuilder", "src/builder.rs: impl ThingBuilder"), ("assembling the Thing", "src/builder.rs: ThingBuilder::build")])
prop("P02", "Builder stage transitions lose nothing",
     "Moving a builder from one stage to the next (adding an extension, finishing the extension stage, giving a form or link its target, choosing the kind of a security scheme, specialising a data schema, making it read-only or write-only) keeps everything configured before: setting a member before the transition gives the same result as setting it after.",
     ["inputs", "programs"], "every setter available before and after a transition, every value, every builder state",
     "the tests call setters in one order; each transition copies a long list of members by hand and one forgotten or swapped member shows only for the order nobody tested",
     [B, A, D, H], [("ThingBuilder/FormBuilder/schema/affordance ext and finish_extend", "src/builder.rs, src/builder/affordance.rs, src/builder/data_schema.rs"), ("LinkBuilder::href, FormBuilder::href", "src/builder.rs"), ("security scheme kinds", "src/builder.rs: SecuritySchemeBuilder")])
prop("P03", "Interaction affordance members reach the built affordance unchanged",
     "Every member set on the builder of a property, action or event (@type, title(s), description(s), forms, uriVariables, observable, the data schema of a property; input, output, safe, idempotent, synchronous of an action; subscription, data, data response, cancellation of an event) appears in the built affordance under its own name with the given value and alters no other member.",
     ["inputs", "programs"], "every affordance builder state, every setter and argument",
     "tests sample a few affordances; exchanged event schemas or action flags are visible only when both are set to different values",
     [A, B], [("affordance builders and their conversion", "src/builder/affordance.rs: *AffordanceBuilder, UsableAffordanceBuilder"), ("insertion under the affordance name", "src/builder.rs: ThingBuilder::build")])
prop("P04", "Data schema members reach the built schema unchanged",
     "Every member set on a data schema builder (human readable information, @type, constant, default, unit, enumeration, oneOf, read-only, write-only, format, and the members specific to arrays, numbers, integers, objects and strings) appears in the built schema with the given value, list-like members keep every item in order, and no call alters another member. The kind chosen (array, boolean, number, integer, object, string, null) is the kind of the built schema.",
     ["inputs", "programs"], "every schema builder state, every kind, every setter and argument, every nesting",
     "schema builders are layers of generic wrappers whose delegation is repeated by hand for each member; tests cover each wrapper with one or two members",
     [D], [("BuildableDataSchema delegations", "src/builder/data_schema.rs"), ("conversion to DataSchema", "src/builder/data_schema.rs: From/TryFrom impls")])
prop("P05", "Form members reach the built form unchanged",
     "Every member set on a form builder (href, content type, content coding, subprotocol, operations, security, scopes, response, additional responses) appears in the built form with the given value; operations, security names, scopes and additional responses accumulate in call order; no call alters another member, and the extension of a form or response is kept.",
     ["inputs", "programs"], "every form builder state, every setter and argument",
     "tests build forms with one or two members; accumulation order and mixed members are not sampled",
     [B], [("FormBuilder setters", "src/builder.rs: impl FormBuilder"), ("conversion to Form", "src/builder.rs: From<FormBuilder> for Form")])
prop("P06", "Security schemes are registered as configured",
     "Each security scheme given to a Thing builder yields exactly one security definition of the chosen kind with the configured members and the vocabulary defaults for the others, under the given name or the kind's default name, and that name is listed as required exactly when asked for, in call order. Combinations list exactly the given names in order.",
     ["inputs", "programs"], "every kind, every setter, every order of with_key/required/kind calls, every name",
     "tests cover each kind once with literal names",
     [B, T], [("SecuritySchemeBuilder and kinds", "src/builder.rs"), ("registration", "src/builder.rs: ThingBuilder::security")])
prop("P07", "Links keep their members, and sizes are allowed only for icons",
     "Every member set on a link builder appears in the built link with the given value. Building a Thing fails because of a link exactly when a link has sizes and its relation is not icon.",
     ["inputs", "programs"], "every link builder state and every relation, in any order of setting relation and sizes, links in any number",
     "tests check one accepted and one refused combination",
     [B], [("LinkBuilder", "src/builder.rs: impl LinkBuilder"), ("sizes check", "src/builder.rs: TryFrom<LinkBuilder> for Link / Error::SizesWithRelNotIcon")])
prop("P08", "Every security name used is a declared security definition",
     "A Thing whose top-level security, or whose forms or affordance forms, or whose security combinations name a security scheme builds successfully only if each name is among the security definitions, and is never refused for a name that is declared.",
     ["inputs"], "every name, every place where a name can be used (thing, thing forms, property, action and event forms, combinations), any number of forms",
     "tests use an undeclared name in a couple of places; a place that is not checked accepts descriptions no consumer can use",
     [B], [("name checks while building", "src/builder.rs: ThingBuilder::build")])
prop("P09", "Forms carry only the operations allowed where they appear",
     "Building succeeds only if each explicit operation of a form is allowed in its context (property forms: read, write, observe, unobserve; action forms: invoke, query, cancel; event forms: subscribe, unsubscribe; thing forms: the all/multiple operations), and forms of the thing itself name at least one operation explicitly. Allowed operations are never refused.",
     ["inputs"], "every operation in every context, alone and after other operations",
     "21 operations times 4 contexts; tests sample a few pairs",
     [B, T], [("operation checks", "src/builder.rs: ThingBuilder::build, Form checks")])
prop("P10", "Invalid numeric constraints are rejected wherever a data schema may appear",
     "A description builds only if in every data schema it contains — property schemas, action input and output, event subscription, data, data response and cancellation, uriVariables, schema definitions, and schemas nested in arrays, objects and oneOf at any depth — the minimum does not exceed the maximum (for numbers, integers, item counts and text lengths), no bound is NaN, and multipleOf is strictly positive. Schemas satisfying this are not refused, except that equal bounds of which one is exclusive (they admit no value) may be.",
     ["inputs"], "every bound value including NaN and infinities, every combination of inclusive and exclusive bounds, every position and nesting depth",
     "tests check single positions with fixed bounds; the positions and the nesting are unbounded",
     [B, D, A], [("schema checks", "src/builder/data_schema.rs: check_data_schema_subtype, CheckableDataSchema, TryFrom<UncheckedDataSchema>")])
prop("P11", "uriVariables are never objects or arrays",
     "A description builds only if no uriVariables member, of the thing or of any affordance, has an object or array schema; any other schema is accepted there.",
     ["inputs"], "every kind of schema, every affordance and the thing itself, any number of variables",
     "tests check one kind in one place",
     [B, A], [("uriVariables checks", "src/builder.rs: ThingBuilder::build, src/builder/affordance.rs: CheckableInteractionAffordanceBuilder")])
prop("P12", "Schemas named by additional responses are declared",
     "A description builds only if every schema named by an additional response of a form of the thing or of an affordance is among the schema definitions, and is never refused for a declared name.",
     ["inputs"], "every name, every form, any number of responses",
     "tests look at the forms of the thing only, with one response",
     [B], [("additional response checks", "src/builder.rs: ThingBuilder::build")])
prop("P13", "Duplicate names are rejected, distinct names are accepted",
     "Building fails if two properties, two actions, two events or two security definitions share a name, whatever else lies between them; names used once per kind, including the same name in different kinds, are accepted.",
     ["inputs"], "every choice of names and any order of additions",
     "tests add one duplicate next to its original",
     [B], [("duplicate checks", "src/builder.rs: ThingBuilder::build, try_collect of affordances, security definitions")])
prop("P14", "Malformed language tags are rejected everywhere, well-formed ones accepted",
     "Titles and descriptions in several languages of a thing, affordance, data schema or security scheme, and the language of a link, are accepted exactly when every tag is a well-formed language tag, wherever the malformed tag occurs among several.",
     ["inputs"], "every text as a tag, every position among several, every kind of object that carries languages, any nesting of schemas",
     "tests use one malformed tag in a few places",
     [B, H, A, D], [("MultiLanguageBuilder and its checks", "src/builder.rs: MultiLanguageBuilder, src/builder/human_readable_info.rs")])
prop("P15", "Building has no other reason to fail, and errors name the offender",
     "A builder call sequence that violates none of the stated constraints builds successfully, and when building fails the error is of the kind of the violated constraint and carries the offending name, operation, bound or tag.",
     ["inputs", "programs"], "every builder state that violates exactly one constraint",
     "tests compare a few error values with literal arguments",
     [B], [("Error and its construction sites", "src/builder.rs: enum Error")])
prop("P16", "Serialised members have the names and shapes of the Thing Description vocabulary",
     "Serialising a Thing and everything it contains writes each member under its Thing Description name (for example @context, titles, securityDefinitions, uriVariables, additionalResponses, minItems, multipleOf, contentMediaType), with that member's value, and writes no other member.",
     ["inputs"], "every value of every serialisable type; every member of it",
     "tests serialise a few Things and compare with fixed JSON; most members never occur in them",
     [T], [("serde attributes", "src/thing.rs: derive(Serialize)")], ("the serialised document",))
prop("P17", "Parsing and serialising use the same members",
     "For every type of the description, every member name written while serialising is read while parsing, and each name is stored to the same member it is written from, so a parsed description serialises to the members it was parsed from.",
     ["inputs"], "every member of every type",
     "tests round-trip a few documents; a one-sided rename is invisible for members absent from them",
     [T, "src/protocol/http.rs", "src/protocol/coap.rs", "src/protocol/mqtt.rs"], [("serde attributes", "src/thing.rs: derive(Serialize, Deserialize)")], ("the serialised document", "the parsed Thing"))
prop("P18", "Optional members are omitted when unset and may be absent when parsing",
     "An optional member is written when serialising exactly when it is set (when unset it is omitted, never null), and a document without an optional member parses, giving an unset member or the documented default; members required by the vocabulary must be present for parsing to succeed (a security scheme that lacks them is kept as a scheme of unknown kind).",
     ["inputs"], "every optional member of every type, every combination of presence and absence",
     "tests parse full or minimal documents; each member's absence alone is not sampled",
     [T, "src/protocol/http.rs", "src/protocol/coap.rs", "src/protocol/mqtt.rs"], [("serde_with::skip_serializing_none, serde(default)", "src/thing.rs")], ("the serialised document", "the parsed Thing"))
prop("P19", "Defaults while parsing agree with the vocabulary and the builders",
     "When a member with a default value is absent (location and qop of security schemes, alg and format of bearer, success of additional responses, readOnly, writeOnly, safe, idempotent, operations of a form) the parsed value is the default the Thing Description vocabulary assigns and the builder assigns as well.",
     ["inputs"], "every defaulted member",
     "each default is a separate function or impl; tests sample few",
     [T, B], [("serde default attributes and Default impls", "src/thing.rs")], ("the parsed Thing",))
prop("P20", "Members that may be one value or a list accept both forms",
     "Members the vocabulary allows to be either one value or an array (@context, @type, security, scopes, op, profile, hreflang, items) parse from both forms, and a list with one item is written so that it parses back to the same value.",
     ["inputs"], "every such member, both forms, any number of items",
     "tests use one of the forms per member",
     [T], [("serde_as OneOrMany / untagged enums", "src/thing.rs")], ("the serialised document", "the parsed Thing"))
prop("P21", "Enumerated values have distinct vocabulary names, the same in text and documents",
     "Each operation, schema type, security scheme, location, quality of protection and protocol-binding value is written as its own vocabulary name, parsing that name gives the same value back, no two values share a name, and where a value can be displayed as text it is displayed as the same name.",
     ["inputs"], "every value of every enumerated type",
     "tests sample a few values",
     [T, "src/protocol/http.rs", "src/protocol/coap.rs", "src/protocol/mqtt.rs"], [("serde rename attributes, Display for FormOperation", "src/thing.rs")], ("the serialised document", "Display output"))
prop("P22", "Members of different layers of one object never collide",
     "The members of an extension and of every nested layer that is merged into the same JSON object are written into that object and parsed from it, members outside the vocabulary do not disturb the parsing of the others, and two layers that the crate itself merges into one object never write the same member name.",
     ["inputs", "configurations"], "every merged type and every instantiation of the extension points with the protocol bindings of the crate",
     "tests merge a few layers with values that do not collide",
     [T, "src/protocol/http.rs", "src/protocol/coap.rs", "src/protocol/mqtt.rs"], [("serde(flatten)", "src/thing.rs")], ("the serialised document",))
prop("P23", "Protocol bindings use their vocabularies",
     "The HTTP, CoAP and MQTT binding types write and parse exactly the members and values of the htv:, cov: and mqv: vocabularies, each under its own prefix, with the method, option and packet names of the vocabulary.",
     ["inputs"], "every member and every value of the protocol binding types",
     "tests cover a few methods and options",
     ["src/protocol/http.rs", "src/protocol/coap.rs", "src/protocol/mqtt.rs"], [("serde attributes of protocol types", "src/protocol/*.rs")], ("the serialised document",))
prop("P24", "Equality and cloning consider every member",
     "Two values of a description type are equal exactly when all their members are equal, and cloning copies every member unchanged.",
     ["inputs"], "every type, every member, every pair of values",
     "assertions in tests rely on equality; if it ignored a member all of them would be weaker",
     [T, D, B], [("derived and hand-written PartialEq and Clone", "src/thing.rs, src/builder/data_schema.rs")], ("==, clone()",))
prop("P25", "Bounds compare by value and exclusiveness",
     "Comparing two bounds (partial_cmp, the comparison operators and ==) gives: bounds of the same nature (both inclusive or both exclusive), whether minimums or maximums, compare exactly as their values; an inclusive minimum is less than an exclusive minimum of the same or a greater value and otherwise incomparable with it; an inclusive maximum is greater than an exclusive maximum of the same or a smaller value and otherwise incomparable with it; a minimum is greater than a maximum of the other nature when its value is the same or greater and otherwise incomparable with it; swapping the two bounds reverses the result, and a NaN compares with nothing and is the only value reported as NaN.",
     ["inputs"], "every pair of bounds, inclusive and exclusive",
     "tests use a few ordered constants",
     [T, D], [("Minimum and Maximum", "src/thing.rs")], ("the value of the comparison",))
prop("P26", "Extension lists keep every extension and give each back by type",
     "Extending a description puts the new extension in the extension list while keeping all earlier ones in order, and the accessors return exactly the extension at the asked position, for reading and for changing.",
     ["inputs", "programs"], "every list of extensions, every position",
     "tests use lists of two or three fixed types",
     ["src/hlist.rs", "src/extend.rs"], [("HList operations", "src/hlist.rs"), ("Extend", "src/extend.rs")])
prop("P27", "Programs that skip or repeat a builder stage do not compile",
     "A program that builds an incomplete description (a form or link without target, a security scheme, uri variable, schema definition or affordance schema without kind, a combination scheme without members, an extended description whose parts lack their extension), repeats or skips a stage (extension stage, target, kind of a scheme or schema, access mode), or uses a setter that does not belong to the kind it built (members of another scheme, schema or affordance kind), is rejected by the compiler, while the completed twin of the program compiles.",
     ["programs"], "every program over the public interface that breaks the stage protocol in one of the listed ways",
     "tests that must not compile cannot be unit tests, and the crate has none",
     [B, A, D], [("type parameters of the builders", "src/builder.rs, src/builder/data_schema.rs")], ("the verdict of the compiler",))
prop("P28", "Building and the data model never panic, and have no effects",
     "No builder call and no build of a description panics for any argument (callbacks and conversions supplied by the caller aside), and neither do the crate's own serialisation, parsing and comparison functions; the crate contains no unsafe code, performs no input or output, starts no process or thread, reads no clock, environment or random source, and keeps no global mutable state.",
     ["inputs", "programs"], "every reachable function of the crate, every call it makes",
     "panics and effects hide on paths that tests do not take",
     [B, D, A, T], [("the whole crate", "src/")], ("process behaviour",))

NA = {
    "N01": ("Parsing what was serialised gives an equal description", "Serialising a description and parsing the text gives an equal description.",
            "equality after a round trip depends on run-time text: number formatting and parsing, text escapes and the dynamic content of extensions; the clauses visible in the code (same member names, omission, defaults, lists, values, no collisions) are P16-P23"),
    "N02": ("Any well-formed document parses without exhausting resources", "Parsing any text, however large or deeply nested, ends with a description or an error and never exhausts the stack.",
            "the recursion is inside the JSON parser dependency and is bounded by its run-time depth counter; no rule over this repository's source decides it"),
    "N03": ("Numeric values survive serialisation exactly", "Every number in a description has the same value after serialising and parsing.",
            "float formatting and parsing happen in dependencies and depend on run-time bit patterns"),
    "N04": ("Accepted descriptions are valid JSON-LD", "Every description that builds is a valid JSON-LD document with the intended semantics.",
            "JSON-LD validity depends on remote contexts and free text (IRIs, terms) that the crate does not interpret"),
}
for k, (t, s, r) in NA.items():
    prop(k, t, s, ["inputs"], "every description or document", "quantifies over every document", [T], [("serde derive", "src/thing.rs")], ("the serialised document",))


def main():
    import spec  # noqa
    from core import RULES, TECH, PENDING
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        pid = p["id"]
        if pid in NA:
            na.append({"property": pid, "reason": NA[pid][2]})
        elif pid in RULES:
            tech, note = TECH.get(pid, TECH["*"])
            checks.append({"property": pid, "quick_cmd": "python3 engine/check.py %s quick" % pid,
                           "thorough_cmd": "python3 engine/check.py %s thorough" % pid,
                           "technique": tech, "level": "other", "level_note": note})
        else:
            na.append({"property": pid, "reason": PENDING})
    m = {"version": 1, "setup_cmd": "python3 engine/setup.py", "checks": checks, "not_applicable": na,
         "notes": "All checks analyse the MIR of /repo's current tree; see DESIGN.md."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    print(len(checks), "checks,", len(na), "not applicable")


main()
