#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table below and the rules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "gemd/entity/"


def P(id, title, statement, over, text, why, files, mechanism, na=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files,
                        "mechanism": [{"name": n, "where": w} for n, w in mechanism]},
            "na": na}


PROPS = [
 P("C01", "Links between objects are always visible from both ends",
   "Whatever sequence of constructions and link assignments has been made, a material shows up "
   "as the output of exactly the process it points at, and every ingredient and measurement is "
   "listed exactly once by exactly the process or material it points at. Re-pointing, clearing, "
   "replacing by a link, taking over another process's output and assigning the same target "
   "again all keep both ends in step. A rejected assignment leaves every object as it was.",
   ["histories", "inputs"], "all sequences of construct/assign/clear/steal on specs and runs",
   "The tests follow a few fixed assignment sequences; the guarantee is over every sequence, "
   "including failing ones and equal-but-distinct objects.",
   [E + "object/material_run.py", E + "object/material_spec.py", E + "object/ingredient_run.py",
    E + "object/ingredient_spec.py", E + "object/measurement_run.py", E + "object/process_run.py",
    E + "object/process_spec.py"],
   [("process / material setters", E + "object/*_run.py, *_spec.py"),
    ("private reverse lists", E + "object/process_run.py")]),
 P("C02", "Dictionary form of every kind of object is lossless",
   "Turning any value, bounds, attribute, template, spec, run, link, file link or source into its "
   "dictionary or JSON form and rebuilding it gives back an object of the same class with the "
   "same content in every constructor-visible field, for every combination of optional fields. "
   "Two objects that differ in any such field have different dictionary forms.",
   ["inputs"], "every class, every subset of optional fields, arbitrary field contents",
   "Round-trip tests use a handful of fully or sparsely populated objects; a field dropped, "
   "renamed or defaulted for one class and one combination is not sampled.",
   [E + "dict_serializable.py", E + "value", E + "bounds", E + "attribute", E + "object",
    E + "template", E + "file_link.py", E + "link_by_uid.py"],
   [("as_dict / from_dict / dump / build", E + "dict_serializable.py")]),
 P("C03", "JSON round trip of object graphs preserves the whole graph",
   "Serialising any object or container of objects to JSON and loading it yields a graph that is "
   "isomorphic to the original: same objects, same fields, same links in both directions, each "
   "shared object loaded once. Serialising does not change the original beyond giving unlabelled "
   "objects an id during the call, and two objects never come back merged into one.",
   ["inputs", "histories"], "all reachable object graphs, cyclic and shared, with or without uids",
   "Tests serialise particular example histories; sharing, cycles and partially-identified "
   "graphs combine in more ways than they sample.",
   ["gemd/json/gemd_json.py", "gemd/json/gemd_encoder.py", "gemd/util/impl.py"],
   [("dumps/loads, raw_dumps/raw_loads, copy", "gemd/json/gemd_json.py"),
    ("object hook and link substitution", "gemd/json/gemd_json.py")]),
 P("C04", "Flattened objects come in an order in which they can be written",
   "Flattening any object or collection returns every reachable entity exactly once, with every "
   "reference replaced by a link, and ordered so that each object's dependencies come before it. "
   "Sorting a collection for writing is a permutation of its input with the same guarantee. The "
   "objects passed in are left as they were, apart from identifiers added where missing.",
   ["inputs"], "all graphs of templates, specs and runs, in any input order",
   "Tests flatten a few histories in construction order; the order must be right for every graph "
   "and every listing order.",
   ["gemd/util/impl.py"],
   [("flatten", "gemd/util/impl.py"), ("writable_sort_order", "gemd/util/impl.py")]),
 P("C05", "An object's dependencies are exactly what it directly refers to",
   "The dependencies reported by an object are exactly the entities and links that it, its "
   "attributes and its template lists refer to directly, nothing else and none missing, for "
   "every combination of populated fields; the reverse-side views are not dependencies.",
   ["inputs"], "all classes and combinations of fields, with objects or links",
   "Only a few classes' dependency sets are spelled out in tests; one forgotten field makes "
   "writing order and substitution silently wrong.",
   [E + "has_dependencies.py", E + "object", E + "template", E + "attribute"],
   [("all_dependencies and the per-class local dependencies", E + "has_dependencies.py")]),
 P("C06", "Typed fields accept only legal contents and reject without side effects",
   "Every typed field of every object accepts its documented kinds of content, by constructor and "
   "by assignment, and refuses anything else with a ValueError or TypeError. After a refusal the "
   "object, and every object it is connected to, is exactly as it was before.",
   ["inputs", "histories"], "every class, field and kind of content, legal or not",
   "Tests try a few bad values per setter and rarely look at the object afterwards.",
   [E + "setters.py", E + "object", E + "template", E + "attribute", E + "value", E + "bounds",
    E + "source/performed_source.py", E + "file_link.py"],
   [("validate_list, validate_str", E + "setters.py"), ("property setters", E + "object")]),
 P("C07", "Validated lists admit only valid members through every list operation",
   "A list obtained from an object's list-valued field contains only members valid for it, "
   "converted by its trigger where one applies, whichever list operation (construction, append, "
   "extend, insert, index and slice assignment, +=, copy) puts them there. An operation given an "
   "invalid member raises and leaves the list as it was; otherwise the result is what the same "
   "operation on a plain list gives.",
   ["inputs", "histories"], "all list operations, any iterable, any position",
   "The tests exercise single operations with short literal lists; generators, slices, "
   "self-extension and failures half way are not sampled.",
   [E + "valid_list.py", E + "setters.py"],
   [("ValidList", E + "valid_list.py"), ("validate_list", E + "setters.py")]),
 P("C08", "Identifier scopes behave as one case-insensitive mapping",
   "However an entity's uids (or any such mapping) are built or changed, the mapping never holds "
   "two keys that differ only in case, every lookup, membership test, deletion, pop and update is "
   "case-insensitive, and the spelling first used is the one listed. An operation that would "
   "introduce a conflicting spelling raises and changes nothing.",
   ["inputs", "histories"], "all operation sequences over keys equal up to case",
   "Tests cover single operations; the two internal views can drift apart only over sequences "
   "of different operations.",
   [E + "case_insensitive_dict.py", E + "base_entity.py"],
   [("CaseInsensitiveDict", E + "case_insensitive_dict.py")]),
 P("C09", "Validation level decides what happens to inconsistent values",
   "Wherever a value is checked against bounds (attribute value against its template, attributes "
   "of an object against its object template, ingredient fractions within 0 to 1, absolute "
   "quantities non-negative and not dimensionless), a consistent value is stored silently at every "
   "level; an inconsistent one is stored silently at IGNORE, stored with a warning at WARNING, and "
   "refused with a ValueError leaving everything unchanged at FATAL. The order in which value and "
   "template are given, and the operation used to give them, make no difference.",
   ["inputs", "configurations"], "all values, bounds, orders, entry points and levels",
   "Tests try single inside/outside values at single entry points.",
   [E + "attribute/base_attribute.py", E + "object/has_template_check_generator.py",
    E + "object/has_quantities.py", E + "bounds_validation.py"],
   [("_check", E + "attribute/base_attribute.py"),
    ("template_check triggers", E + "object/has_template_check_generator.py"),
    ("quantity checks", E + "object/has_quantities.py")]),
 P("C10", "A scoped validation level is always undone",
   "The validation level in force is always the one last set. A scoped change applies inside its "
   "scope only, and the previous level is back when the scope is left in any way, also when "
   "scopes nest, when the level is changed inside, or when the scope is left by an exception, "
   "which is passed on. An illegal level is refused and changes nothing, and no other operation "
   "changes the level.",
   ["histories", "fault_sequences"], "all sequences of set and scoped changes and exits",
   "Tests leave scopes normally only.",
   [E + "bounds_validation.py"], [("validation_level", E + "bounds_validation.py")]),
 P("C11", "Bounds containment means set containment",
   "Bounds contain other bounds or a value exactly when every possibility allowed by the argument "
   "is allowed by the bounds: same kind of quantity, limits inside limits after unit conversion, "
   "categories or components all listed. Containment is reflexive and transitive, a value is "
   "contained exactly when its own bounds are, None is contained nowhere, and anything else that "
   "is neither bounds nor a value is refused with a TypeError.",
   ["inputs"], "all pairs of bounds and values of all kinds",
   "Tests compare selected number pairs; boundary equality, differing kinds and nested "
   "containment are universally quantified.",
   [E + "bounds", E + "value"],
   [("contains", E + "bounds/*.py"), ("_to_bounds", E + "value/*.py")]),
 P("C12", "Bounds union is the least bounds covering everything",
   "The union of bounds with any number of other bounds or values contains every one of them and "
   "nothing beyond their joint range, does not depend on order or repetition, and leaves its "
   "operands unchanged. Updating in place gives the same result on the object itself. "
   "Incompatible kinds or units are refused with an error and change nothing.",
   ["inputs"], "all finite sequences of bounds and values", "Tests union a few pairs.",
   [E + "bounds"], [("union, update", E + "bounds/*.py")]),
 P("C13", "A value's own bounds are the tightest that contain it",
   "Bounds built from a value contain it, and the limits are exactly the value's own extremes "
   "(nominal or mean for point-like values, lower and upper limits for ranges, the categories or "
   "components with their own names) in the value's own units.",
   ["inputs"], "all values of every kind", "Tests take one example per class.",
   [E + "value"], [("_to_bounds", E + "value/*.py")]),
 P("C14", "Magnitudes are compared only in common units",
   "Real bounds decide containment and union by comparing magnitudes expressed in one common "
   "unit, whichever compatible units the operands are given in; raw numbers in different units "
   "are never compared or mixed, and the union's limits are in the receiver's units. With "
   "incompatible units containment is False and union is refused.",
   ["inputs"], "all operands in all pairs of units, offsets included",
   "Tests use a few unit pairs.",
   [E + "bounds/real_bounds.py", "gemd/units/impl.py"],
   [("_convert_bounds", E + "bounds/real_bounds.py"), ("convert_units", "gemd/units/impl.py")]),
 P("C15", "Unit definitions in force and remembered results agree",
   "After the unit definitions are changed or reset, every unit operation answers according to "
   "the definitions now in force, never from results remembered from earlier ones. A change that "
   "fails leaves the definitions in force, and the current working directory is the same after "
   "any change, successful or not.",
   ["histories", "fault_sequences"], "all sequences of changes, failures included",
   "Tests change definitions once and back, on success only.",
   ["gemd/units/impl.py"], [("change_definitions_file", "gemd/units/impl.py"),
                            ("parse_units, convert_units caches", "gemd/units/impl.py")]),
 P("C16", "Links made from an object name one of that object's identifiers",
   "A link made from an entity carries a scope and id that the entity really has: the requested "
   "scope when present, otherwise one of its own when a fallback is allowed, and otherwise an "
   "error. Assigning generated identifiers touches only objects that have no identifier at all, "
   "gives each a fresh id in the requested scope, and leaves existing identifiers alone; two links are equal exactly when scope and id "
   "are, and equal links hash alike.",
   ["inputs", "histories"], "all uid mappings, scopes and fallbacks",
   "Tests use single-scope entities.",
   [E + "base_entity.py", E + "link_by_uid.py", "gemd/util/impl.py"],
   [("to_link", E + "base_entity.py"), ("from_entity", E + "link_by_uid.py"),
    ("set_uuids", "gemd/util/impl.py")]),
 P("C17", "Substituting links for objects and back changes nothing else",
   "Replacing references by links, and links by objects from an index, changes exactly the "
   "references concerned, at any depth of lists, tuples, dictionaries and attributes; every other "
   "value keeps its type and content. The non-in-place forms leave their argument "
   "untouched, links absent from the index stay, and substituting one way and back restores the "
   "original references.",
   ["inputs"], "all nested structures, indices and scopes",
   "Tests substitute in small fixed structures.",
   ["gemd/util/impl.py"], [("substitute_links, substitute_objects", "gemd/util/impl.py"),
                           ("_substitute", "gemd/util/impl.py")]),
 P("C18", "Graph traversals visit every reachable object exactly once",
   "The traversal helpers recursive_foreach and recursive_flatmap visit each object reachable "
   "from their argument exactly once, terminate on cyclic graphs and are not limited by the depth "
   "of the graph, reach both forward references and reverse views unless asked to go one way "
   "only, and do not themselves change the objects.",
   ["inputs"], "all finite graphs, cyclic and shared", "Tests walk a few trees.",
   ["gemd/util/impl.py"], [("recursive_foreach, recursive_flatmap", "gemd/util/impl.py"),
                           ("cached_isinstance memo sets", "gemd/util/impl.py")]),
 P("C19", "Equality is an equivalence on content, safe on cycles",
   "Comparing two objects of the data model terminates on any graph, is reflexive and symmetric, "
   "is True for separately built identical graphs and False when they differ in any compared "
   "field (list-valued fields compare without regard to order), and does not change either "
   "operand. Comparison with a foreign type is False rather than an error. An entity equals a "
   "link, or a scope and id pair, exactly when it has that identifier.",
   ["inputs"], "all pairs of graphs", "Tests compare a few pairs in one direction.",
   [E + "base_entity.py", E + "dict_serializable.py", E + "object"],
   [("_cached_equals", E + "base_entity.py"), ("__eq__", E + "dict_serializable.py")]),
 P("C20", "Object templates check exactly the attributes they describe",
   "An attribute in an object is checked against the bounds that the object's template gives for "
   "that attribute's own template (matched by identity of template, by uid link or by equality), "
   "and against no other; an attribute without a template of its own is matched by its name "
   "against the templates listed as objects. An attribute that matches no entry, one whose entry "
   "is a link without bounds, and the attributes of an object without template are not checked; "
   "for runs the template reached through the spec counts.",
   ["inputs"], "all attribute/template combinations and positions",
   "Tests have one or two attribute templates per object template.",
   [E + "object/has_template_check_generator.py", E + "object/has_parameters.py",
    E + "object/has_conditions.py", E + "object/has_properties.py",
    E + "template/has_parameter_templates.py"],
   [("template_check", E + "object/has_template_check_generator.py"),
    ("validate_*", E + "template/has_*_templates.py")]),
 P("C21", "An object template cannot widen an attribute template's bounds",
   "Bounds given in an object template for an attribute template are accepted exactly when they "
   "lie within that attribute template's own bounds, by constructor, assignment or any list "
   "operation; otherwise they are refused and nothing changes. Entries given as a bare template, "
   "a pair, or with links all read back as template and optional bounds.",
   ["inputs"], "all bounds pairs and entry forms", "Tests use one pair per list.",
   [E + "template/has_parameter_templates.py", E + "template/has_condition_templates.py",
    E + "template/has_property_templates.py", E + "template/attribute_template.py"],
   [("_homogenize_ranges", E + "template/has_*_templates.py")]),
 P("C22", "Builder helpers wire the objects they return",
   "The convenience builders return objects connected as documented: an added edge makes an "
   "ingredient joining exactly the given material and process with the given quantities and name; "
   "an added measurement and added attribute end up on exactly the given object with the given "
   "template and value (a condition for a material spec goes with its latest property). "
   "Combinations the model forbids are refused; a refused attribute leaves the object unchanged.",
   ["inputs"], "all argument combinations", "Tests call each builder a few ways.",
   ["gemd/builders/impl.py"], [("add_edge, add_measurement, add_attribute, make_node, "
                                "make_attribute, make_value", "gemd/builders/impl.py")]),
 P("C23", "Runs instantiated from specs mirror the spec graph",
   "Instantiating a spec yields a run graph with exactly one run per material, process and "
   "ingredient spec reached from it (material to process, process to ingredients, ingredient to "
   "material), each pointing at its spec, linked to each other as the specs are, shared "
   "specs giving shared runs; the specs' own content is unchanged and anything but a spec is "
   "refused with a TypeError. A complete material history has exactly one record for each object "
   "reachable from the material, references and reverse views alike, with links in place of "
   "references.",
   ["inputs"], "all spec graphs, with sharing", "Tests instantiate one example graph.",
   [E + "util.py"], [("make_instance", E + "util.py"), ("complete_material_history",
                                                       E + "util.py")]),
 P("C24", "Enumerated fields accept members, values and synonyms, nothing else",
   "Every enumeration turns each of its members, their values and their documented synonyms, in "
   "any letter case, into that member, and refuses everything else or returns None as asked. No "
   "string names two members, and enumerated fields always hold members or their plain values as "
   "documented.",
   ["inputs"], "all strings and members of all enumerations", "Tests sample strings.",
   ["gemd/enumeration"], [("BaseEnumeration", "gemd/enumeration/base_enumeration.py")]),
 P("C25", "Objects do not share mutable state with their inputs or each other",
   "Lists, dictionaries and sets given to a constructor or assigned to a field can be changed "
   "afterwards without changing the object, and two objects built from the same inputs or with "
   "defaults never share a container. Changing the plain dictionary form produced by dump, or the "
   "dictionary an object was built from, likewise leaves the object alone.",
   ["inputs", "histories"], "all container-valued fields of all classes",
   "Aliasing shows only if a test mutates the right container afterwards.",
   [E + "setters.py", E + "object", E + "template", E + "bounds", E + "value"],
   [("copying setters", E + "setters.py")]),
 P("C26", "Every serialisable class has its own type tag and loads by it",
   "Every concrete class of the data model has a type tag, no two have the same one, and loading a "
   "dictionary or JSON with that tag gives that class. Unknown tags are refused.",
   ["programs"], "all classes", "Nothing enumerates the classes against the registry.",
   [E + "dict_serializable.py", "gemd/json/gemd_json.py"],
   [("typ registry", E + "dict_serializable.py")]),
 P("C27", "Library calls have no side effects on the surrounding process",
   "Importing the library (apart from the demonstration scripts) and calling its operations prints "
   "nothing, does not configure logging or warnings filters, and leaves the environment, the "
   "working directory, the interpreter's limits and the random state as they were, on failure too. Files are "
   "only written where the caller asks, apart from the unit definitions that are deployed to a "
   "temporary directory.",
   ["programs", "inputs"], "all operations", "No test observes stdout or process state.",
   ["gemd"], [("logging via module loggers", "gemd/**")]),
 P("C28", "An ingredient run's name and labels follow its spec",
   "An ingredient run's name and labels are those of its spec whenever the spec is an object, "
   "now and after any reassignment or change of the spec; they cannot be set directly, stay the "
   "last known ones when the spec is replaced by a link or removed, are absent as long as there "
   "never was a spec object, and survive serialisation and link substitution.",
   ["histories"], "all sequences of spec assignments and round trips",
   "Tests read the name after construction.",
   [E + "object/ingredient_run.py"], [("name/labels/spec properties",
                                       E + "object/ingredient_run.py")]),
 P("C29", "Unit strings normalise to equivalent, re-parsable unit strings",
   "Parsing and formatting any unit expression, scaling factors and percent signs included, gives "
   "a string that parses to the same dimensions and magnitude.",
   ["inputs"], "all unit strings", "Tests sample unit strings.",
   ["gemd/units/impl.py"], [("_scaling_preprocessor, _scale_formatter", "gemd/units/impl.py")],
   na="Depends on pint's tokenizer, regular expressions over arbitrary text and floating-point "
      "formatting; the repository source does not determine the answer without running pint."),
 P("C30", "Unit conversion is numerically right",
   "Converting a magnitude between compatible units gives the physically equal magnitude.",
   ["inputs"], "all magnitudes and unit pairs", "Tests sample conversions.",
   ["gemd/units/impl.py", "gemd/units/citrine_en.txt"], [("convert_units", "gemd/units/impl.py")],
   na="The factors live in pint and its definition file and the result is floating-point "
      "arithmetic inside a third-party library: no static argument over /repo bounds it."),
 P("C31", "Material templates' demo data and examples are consistent",
   "The demonstration histories build without validation warnings.", ["configurations"],
   "the shipped demo tables", "Tests build one configuration.", ["gemd/demo"],
   [("cake, strehlow_and_cook", "gemd/demo")],
   na="Data-driven: the outcome depends on the contents of shipped JSON tables and seeded random "
      "numbers rather than on program structure."),
 P("C32", "Every object can be printed",
   "repr and str of every object of the data model, alone or in any graph of objects including "
   "ones that are cyclic through reverse views, end and give text that shows every field by name "
   "with the texts it contains, and objects in reverse views by name. Printing changes nothing, "
   "and an enumeration member prints as its value.",
   ["inputs"], "all classes, all subsets of optional fields, all graphs",
   "Tests print a few objects; one field or one kind of neighbour that makes printing fail, loop "
   "or leave something out is not sampled.",
   [E + "dict_serializable.py", E + "link_by_uid.py", "gemd/enumeration/base_enumeration.py"],
   [("__repr__, _name_repr", E + "dict_serializable.py"),
    ("__str__", "gemd/enumeration/base_enumeration.py")]),
 P("C33", "An object stays the same set member and dictionary key",
   "Every object of the data model can be a member of a set and a key of a dictionary, and is "
   "found there again whatever is done to it: its hash does not depend on its content and is not "
   "changed by assignments, in-place changes, identification, serialisation, substitution or "
   "being referred to. (Links are values: equal links hash alike.)",
   ["histories", "inputs"], "all classes, all fields, all operations in between",
   "Tests put objects in sets without changing them afterwards.",
   [E + "dict_serializable.py", E + "base_entity.py", E + "link_by_uid.py"],
   [("__hash__ and __eq__", E + "dict_serializable.py, base_entity.py")]),
 P("C34", "Views of another object's content read through to it",
   "A run's template is that of its spec whenever the spec is an object, and None otherwise, now "
   "and after any change of the run's spec or of the spec's template; a property with conditions "
   "shows its property's name, template, origin and value, also after the property is changed or "
   "replaced. Ingredients have no template and cannot be given one.",
   ["histories", "inputs"], "all sequences of assignments to the viewed object",
   "Tests read a view once after construction.",
   [E + "object/has_spec.py", E + "attribute/property_and_conditions.py",
    E + "object/ingredient_spec.py"],
   [("template", E + "object/has_spec.py"),
    ("name/template/origin/value", E + "attribute/property_and_conditions.py")]),
 P("C35", "A field means the same however given and touches no other field",
   "A field has the same content whether it is given to the constructor or assigned later, and "
   "whatever it held before. Assigning a field leaves every other field of the object, and the "
   "content of every other object, as it was (apart from views of the reference assigned). "
   "Assigning a field what it holds changes nothing, and clearing it is the same as leaving it out.",
   ["inputs", "histories"], "all classes, all fields, bare and populated objects",
   "Tests assign fields one at a time and look at the field assigned.",
   [E + "object", E + "template", E + "attribute", E + "value", E + "bounds",
    E + "base_entity.py"],
   [("constructors and property setters", E + "**")]),
]

ENGINE = ("path-sensitive abstract interpretation of the repository's ASTs (types x identity x "
          "order domain) under a most-general abstract client; ")
NOTE = ("Static: no repository code is run and no solver is used. Complete over branches and over "
        "the order/identity/type classes of symbolic contents for the listed shapes (bounded "
        "graph and container sizes, bounded client sequences); trusts the analyser's model of "
        "Python, the standard library and pint.")
TECH = {
    "C01": "typestate of both link ends over client histories", "C02": "field-flow: constructor "
    "arguments through dump/build compared structurally", "C03": "heap-shape isomorphism of the "
    "graph before and after", "C04": "order and completeness of the flattened heap", "C05":
    "reference-field inventory compared with reported dependencies", "C06": "type-domain acceptance "
    "and heap-unchanged effect analysis", "C07": "typestate of validated lists against a list "
    "oracle", "C08": "typestate of the mapping against a mapping oracle", "C09": "value-domain "
    "order analysis of every check site", "C10": "typestate of the level over scope exits",
    "C11": "containment decided in an order domain against set inclusion", "C12": "union decided "
    "in an order domain against the hull, with frame conditions", "C13": "value-to-bounds flow of "
    "the extremes", "C14": "unit-frame analysis of every magnitude comparison", "C15": "effect and "
    "cache-invalidation analysis with fault points", "C16": "provenance of link scope and id",
    "C17": "heap-difference analysis of substitution", "C18": "visit-count analysis over heap "
    "graphs", "C19": "pairwise heap comparison, both directions, with frame conditions", "C20":
    "which template bounds flow to which attribute check", "C21": "acceptance against inclusion, "
    "every entry form and list operation", "C22": "link provenance of builder results", "C23":
    "heap isomorphism of spec and run graphs", "C24": "string-class analysis of every enumeration "
    "plus structural uniqueness of members and synonyms", "C25": "alias analysis of containers in "
    "and out", "C26": "class-table lint plus dispatch analysis by tag", "C27": "effect lint over "
    "all modules plus effect analysis of import and operations", "C28": "typestate of name and "
    "labels over spec assignment histories", "C32": "flow of contents into the printed text, with "
    "frame conditions", "C33": "effect analysis of hashing over histories", "C34": "read-through "
    "analysis of derived views over histories", "C35": "constructor/setter equivalence and frame "
    "conditions per field",
}
PENDING = "check under construction"


def main():
    checks, na = [], []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            q = {k: v for k, v in p.items() if k != "na"}
            f.write(json.dumps(q) + "\n")
            assert len(p["title"]) <= 80, p["title"]
            if os.path.exists(os.path.join(HERE, "rules", p["id"].lower() + ".py")) \
                    and not p["na"]:
                checks.append({
                    "property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                    "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                    "technique": ENGINE + TECH.get(p["id"], "effect and value analysis of the "
                                                            "anchored operations"),
                    "level": "other", "level_note": NOTE})
            else:
                na.append({"property": p["id"], "reason": p["na"] or PENDING})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. Defects found are fixed in /repo (fix: commits) and listed "
                  "in known_findings.txt."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
