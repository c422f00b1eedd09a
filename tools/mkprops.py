"""Write properties.jsonl and MANIFEST.json (one source for both)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "model_checking"
V = "punx/validate.py"
VA = "punx/validations/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level=MC, observe=()):
    assert len(title) <= 80, title
    P.append(dict(
        line=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)),
        check=dict(property=id, quick_cmd="bin/check %s quick" % id, thorough_cmd="bin/check %s thorough" % id,
                   technique=technique, level=level, level_note=note, evidence_file="evidence/%s.json" % id)))


JUDGE = ("TLA+ state machine of validation; TLC checks invariants on enumerated file universes, replays them into punx and "
         "judges recorded validations (also of random files) against it")
TRUST = ("Exhaustive over the enumerated universes (small link graphs, names, classes, contents); seeded random files beyond "
         "them. Trusts h5py for the recorded content of a file, and TLC.")

prop("P01", "Every reachable item is cataloged once per path, at its address",
     "Validating a data file reviews every group, dataset, named data type and attribute that is reachable from the root, once "
     "for each path to it (through hard, soft and external links), ending only where a link leads back to a group it is inside "
     "of (that one is listed, not entered) and leaving out links without target. "
     "Each object is listed at its HDF5 path in the file being validated and each attribute at path@name, with the class path "
     "made of the NX_class of the groups above and its own class (groups) or name (others). "
     "All that is in a group whose NX_class is not a text starting with NX is listed as non-NeXus content, however deep, and its "
     "attributes have no address.",
     ["inputs"], "all HDF5 files: any link structure, nesting of NeXus and non-NeXus groups, names and order of creation",
     "tests compare the addresses of a few example files; cycles, dangling links and external links in odd places are not among them",
     [V, "punx/utils.py"], [("build_address_catalog, ValidationItem", V), ("getHdf5Item", "punx/utils.py")], JUDGE, TRUST,
     observe=["Data_File_Validator.addresses", "Data_File_Validator.classpaths"])

prop("P02", "Each item name gets the verdict of the NeXus naming rules",
     "In a validation each object below the root has exactly one finding about its name: OK when the whole name matches "
     "[a-z_][a-z0-9_]*, NOTE when it only matches the item name pattern of the NXDL schema in use, ERROR when neither, but WARN "
     "whenever its class path has NXcollection in it. "
     "The name of an attribute of NeXus content (or of an object that has '@' in its class path) is OK when one of these patterns matches all of it and ERROR when not; it is not "
     "judged where the object is a link to another address (its target attribute names another address), and "
     "for NX_class the value is judged instead, which must be text that matches the class name pattern of the schema. "
     "The verdict depends on nothing but the name (for NX_class: the value) and the place of the item.",
     ["inputs"], "all names that HDF5 can hold (any Unicode, control characters, newline, '@', blanks) on every kind of item in "
     "NeXus, NXcollection and other content",
     "tests try a few names; the rules are about all strings and all places",
     [VA + "item_name.py", "punx/nxdl_schema.py", V], [("verify", VA + "item_name.py")], JUDGE, TRUST)

prop("P03", "Each group is recognized by its NX_class, or not at all",
     "Each reviewed group has one finding on recognition: groups that are not NeXus are OK as such and nothing "
     "more is demanded of them; NeXus groups are OK when their NX_class is a class of the NXDL file set in use and ERROR when "
     "it is not. "
     "A recognized group has an OK finding as base class when its class is used as a base class (a base class, or a contributed "
     "definition that is not just one entry group with a definition field) and an ERROR when it is not; the root counts as NXroot. "
     "No other group changes this.",
     ["inputs"], "all HDF5 files; NX_class of any type and value, on any group; all NXDL file sets, also those a user has changed or made",
     "tests use well-formed files with known classes",
     [V, VA + "nx_class_attribute.py"], [("validate_group, usedAsBaseClass", V), ("validate_NX_class_attribute", VA + "nx_class_attribute.py")],
     JUDGE, TRUST)

prop("P04", "Group contents are compared with the whole base class, both ways",
     "For each recognized NeXus group, each of its attributes is reported as known or unknown to the base class, with the value "
     "checked where the class gives an enumeration (ERROR when not in it) or where it must name something (default at root, "
     "entry and subentry, signal: ERROR when there is no such member; target: ERROR when no such address was reviewed), "
     "and each child field and group is reported as defined or not defined in the class. "
     "Also each field and each group which the base class defines is reported once: OK when the group has a member of that name, "
     "OPTIONAL when it has not. "
     "Nothing else has such findings, and none is left out.",
     ["inputs"], "all HDF5 files, all classes of all NXDL file sets, shipped or of a user, all attribute types and values",
     "tests compare totals for some files; what is reported on one item of one class among hundreds is not seen",
     [VA + "hdf5_group_items_in_base_class.py", VA + "base_class_items_in_hdf5_group.py", "punx/nxdl_manager.py"],
     [("verify", VA + "hdf5_group_items_in_base_class.py"), ("verify", VA + "base_class_items_in_hdf5_group.py")], JUDGE, TRUST)

prop("P05", "NX_class, target, signal and axes attribute values are judged by rule",
     "The value of each NX_class attribute with an address is OK exactly when it is the name of a base class, or of a contributed "
     "definition, of the file set; of a target attribute when it is an absolute path with valid item names where each "
     "step exists. "
     "signal of a dataset is OK when it is the number one (as number or text) and NOTE when not; signal of a group other than the "
     "root must name (ERROR when not) an existing member, and that name is graded OK, NOTE or ERROR like an item name; each "
     "name in axes is graded and looked up (OK or ERROR) in the group itself, or in the group of the dataset with the attribute. "
     "All other attributes with an address are marked TODO, once.",
     ["inputs"], "all attribute values: text, bytes, arrays of them, numbers, empty, references, compound; on groups and datasets",
     "tests have correct values and a few wrong ones; types and shapes of attributes are not varied",
     [VA + "attribute.py"], [("verify", VA + "attribute.py")], JUDGE, TRUST)

prop("P06", "One conclusion on the default plot, by the rules, newest version first",
     "Each validated file has exactly one finding on the default plot: found by version 3 (an NXdata group in an NXentry with a "
     "signal attribute that names a field of that group; a unique one to which the default attributes of root and entry lead is preferred), "
     "otherwise by version 2 (a field marked with signal=1, the only one of its group), otherwise none found, which is ERROR, or NOTE where the "
     "file set does not demand NXdata in NXentry. "
     "A signal attribute which names nothing is an ERROR and ends the search by version 3; several signal=1 in one group are an "
     "ERROR for that group; each candidate is reported with its own finding. "
     "The address reported is the one which these rules select.",
     ["inputs"], "all HDF5 files with any number of entries, data groups, signal and default attributes, right or wrong",
     "tests check the conclusion for a few example files",
     [VA + "default_plot.py"], [("verify, default_plot_v3, default_plot_v2", VA + "default_plot.py")], JUDGE, TRUST)

prop("P07", "Every declared application definition is checked, field by field",
     "Each definition field in an NXentry, or in an NXsubentry directly in an NXentry, causes a check: its first value must be the "
     "name of a known class (ERROR when not) which is an application definition or contributed definition (ERROR when it is a base class). "
     "Then each field in the entry group of that definition is reported as found or (ERROR) not found in the group that has the "
     "definition field, and where the field has an enumeration and is found, its first value must be in it (ERROR when not). "
     "Several entries or subentries are each checked on their own, and a group without definition field has no such findings.",
     ["inputs"], "all HDF5 files, all applications of all file sets, shipped or of a user, missing, odd and wrong fields",
     "tests try few application definitions, in files that mostly satisfy them",
     [VA + "application_definition.py", V], [("verify", VA + "application_definition.py")], JUDGE, TRUST)

prop("P08", "Summary, score and printed report agree with the findings",
     "The summary has, for each status asked for, the number of findings with that status; the score is the sum of the values "
     "of the findings whose value is not zero, their number and the average. "
     "The printed report names the data file, lists each finding with one of the statuses asked for exactly once with its "
     "address, status, test and comment (all findings when nothing is asked for), and then gives the counts "
     "for all statuses, their total, and the average and number of the score. "
     "Making a summary or report changes nothing.",
     ["inputs", "histories"], "all sets of findings; all 256 subsets of the statuses",
     "tests print one report; the filter over all subsets and files is not checked",
     [V, "punx/finding.py"], [("finding_summary, finding_score, print_report", V)], JUDGE, TRUST)

prop("P09", "A validation does not depend on what was done before",
     "The findings, catalog, summary and score of a validation are those of a fresh process which only validates that file "
     "with that file set. "
     "This holds after any history in the same process: other files validated with the same validator or with others of the same or "
     "of other file sets (also ones that could not be opened), reports printed, trees shown, NXDL files checked.",
     ["histories", "inputs"], "all sequences of validations, views and reports with several validators and file sets in one process",
     "each test has its own validator and file; the results of sequences are not compared",
     [V, "punx/nxdl_manager.py", "punx/schema_manager.py", "punx/cache_manager.py", "punx/singletons.py"],
     [("validate, __init_local__", V), ("Singleton", "punx/singletons.py")],
     "TLA+ state machine of validation; recorded histories of one process are judged step by step, each validation as if alone",
     "Histories are seeded random samples over several file sets and kinds of operation. " + TRUST)

prop("P10", "Any file that h5py can read is validated, shown and reported to the end",
     "For any HDF5 file whose names and values h5py can read, validation with any installed file set ends without an exception, and so do printing its "
     "report and showing its tree, with and without attributes. "
     "This covers unusual content: links that lead to each other, to nothing or to other files, empty and null "
     "dataspaces, attributes and datasets of any data type, any name, deep or wide structure.",
     ["inputs"], "all readable HDF5 files",
     "tests have ordinary files; each odd type, link or name is a separate case",
     [V, "punx/h5tree.py", "punx/utils.py"], [("validate, print_report", V), ("report", "punx/h5tree.py")],
     "TLA+ state machines of validation and tree view (which always end, checked by TLC); recorded runs on odd files are judged against them",
     "Seeded random samples of odd files plus a fixed list of HDF5 features. " + TRUST)

prop("P11", "A validator owns its file and its results from one validation to the next",
     "A validator holds at most one open HDF5 file, that of its last validation (apart from what external links of it open); it closes it when told or when it starts to validate another, and "
     "never changes the files it reads. "
     "A file that does not exist is refused and changes nothing; one that is not HDF5 is refused, with no findings left and no file "
     "open; any later validation is not affected by either. "
     "Findings, summary, score and report stay available, and the same, after the file is closed, and closing again does nothing.",
     ["histories", "fault_sequences"], "all sequences of validate (good, missing, not HDF5, damaged files, folders), close, summary, score and report on several validators",
     "tests validate once and close",
     [V], [("validate, close", V)],
     "TLA+ state machine of the life of validators; TLC enumerates all operation sequences up to a bound, they are replayed and the recorded traces judged",
     "Exhaustive over the operation sequences to the bound for one validator, random for two. Trusts the file ids of h5py for open files.")

prop("P12", "The tree view shows every item once per path, in order, links as links",
     "The tree view of a data file is a line with its name (marked as NeXus when the root has an NXentry group) and then, each one level "
     "deeper than its group: the attributes, the members that are no groups sorted by name (type, shape and value, then their "
     "attributes), and the groups sorted by name with NX_class and their own content. "
     "A soft link is shown by its path, an external link without target as missing, other external links as the item with file and path, an item whose target attribute "
     "names another address by that address, and a group inside of itself by a reference only; nothing else is left out or shown twice on one path. "
     "With attributes turned off exactly their lines are missing, and a view changes neither the file nor any later view.",
     ["inputs", "histories"], "all HDF5 files and link structures; attributes shown or not, in any sequence",
     "tests compare the text for few example files",
     ["punx/h5tree.py", "punx/utils.py"], [("report, _renderGroup, _renderDataset", "punx/h5tree.py")],
     "TLA+ definition of the tree view; TLC checks it on an enumerated universe of link graphs, which is replayed, and judges recorded views",
     TRUST)

prop("P13", "Arrays in the tree view are elided by rule, for any shape and limit",
     "In the tree view an array of numbers is shown with the items of each dimension in order: all n of them when n is at most the limit, otherwise the "
     "first limit-2, an ellipsis, and the last one. "
     "This applies to each dimension on its own, for arrays up to rank three (of higher ranks only the first dimension is shown); "
     "a limit of two or less shows no items at all, and the type and shape given are always those of the whole dataset. "
     "Scalars, single values and text are always shown in full.",
     ["inputs", "configurations"], "all shapes, numeric types and limits",
     "tests use one limit and few arrays",
     ["punx/h5tree.py"], [("_renderNdArray, _decideNumShown", "punx/h5tree.py")],
     "TLA+ definition of the shown array; TLC enumerates shapes, which are replayed for each limit, and judges recorded views",
     TRUST)

CM = "punx/cache_manager.py"
NM = "punx/nxdl_manager.py"
INST = "TLA+ state machine of the installation with faults; TLC checks it, its situations are replayed with a fault at every step of the real code, recorded traces judged"
NXTRUST = ("Exhaustive over the enumerated small definitions, seeded random documents and the shipped file sets beyond them. Trusts lxml "
           "for the content of documents, Python's re for the regular expressions of a schema, and TLC.")

prop("P14", "The file sets offered and chosen are those on disk, by name or latest",
     "The list of NXDL file sets names each directory of the source cache and of the user cache that has a file set description once by its name "
     "(a set of the user cache hides the one of that name in the source cache), with its cache, date, commit and path, in the order of date; "
     "anything else in the caches is ignored, and sets that came or went are seen by the next listing or loading by name. "
     "A new process has the set of the latest date as its default; from then on the default is the one chosen last, and it is used when none is named. "
     "Definitions are loaded (and files validated) with the set that was named or not at all: an unknown name is refused with a KeyError and "
     "changes no default (only selecting an unknown name, without loading it, chooses the latest).",
     ["histories", "configurations"], "all contents of the caches, with sets added, replaced and removed in any sequence of listing, selecting and loading",
     "tests use the three shipped sets and one order",
     [CM, NM], [("CacheManager, table_of_caches, select_NXDL_file_set", CM), ("NXDL_Manager", NM)],
     "TLA+ state machine of the caches; TLC enumerates operation sequences, they are replayed and the recorded traces judged",
     "Exhaustive for short sequences over few names and dates, random for long ones.", observe=["CacheManager().all_file_sets", "table_of_caches()"])

prop("P15", "An installed file set has the NXDL content of its archive, and says so",
     "Installing a file set takes from the downloaded archive the files whose name ends in .xsd, .xml or .xsl and that are directly in a folder named "
     "base_classes, applications, contributed_definitions, or like the top folder of the archive (that of its first entry): these and no others, under their path below the top folder "
     "and with their content, never anything outside of the folder of that set. "
     "The description of the set has its name, the commit (the comment of the archive), the URL, and the newest date of the files taken. "
     "An archive with fewer than two such files, none of them in its top folder, or without a top folder, is refused.",
     ["inputs"], "all archives: names with any folders, '..', absolute, doubled, dates and comments",
     "tests need the network and look at one archive",
     [CM], [("download_file_set, _install_file_set, is_extractable", CM)],
     "TLA+ definition of what is taken from an archive; TLC enumerates archives, they are installed by the real code, results judged",
     "Exhaustive for the enumerated pairs of entries, random mixtures beyond them; the network is a stand-in.")

prop("P16", "An installation is all or nothing, whatever fails",
     "A file set that is installed is replaced only when an update was asked for, else nothing is downloaded; a download is tried three times at most, when there are "
     "connection errors. "
     "When an installation fails (no connection, bad archive, error or interrupt at any step) the cache is what it was and nothing is left over (only "
     "when the set is already in its place it may stay, with hidden leftovers); "
     "when the process is killed, what is there is the old or the new set, or both are complete on the disk, and installing again works. "
     "At any time others see the old set, the new one, or, in the moment of replacement, none, but never a part, other sets never change, and when another process installs the same set meanwhile a complete set remains.",
     ["crash_points", "fault_sequences", "schedules"], "an error, an interrupt, the end of the process, or another installation at every step that writes to the file system",
     "tests do not make it fail",
     [CM], [("download_file_set, _install_file_set", CM), ("download_NeXus_zip_archive", CM)], INST,
     "One fault per installation, at each file system operation (audit events), for all situations of the model. Trusts that a rename is atomic.")

prop("P17", "Loading a file set gives all that its NXDL files and schema declare",
     "Loading a file set gives one class for each file *.nxdl.xml directly in base_classes, applications, contributed_definitions (titled by the file name up "
     "to its first dot, with the folder as category; of two with the same title the later folder counts). "
     "Each has the symbols, attributes, groups (with all their content), fields, links, enumerations, dimensions and link targets of the file, with the defaults "
     "that the schema of that set declares (in application definitions: minOccurs 1 and attributes not optional); items which share a name are numbered, none is lost. "
     "A set without one of these folders, with a file that is no XML, not valid by the schema, or with two attributes of one name in one place, is refused; "
     "the summary of a schema (attributes, patterns, defaults, types) is what the schema file says.",
     ["inputs", "configurations"], "all NXDL files and file sets (also of other schemas); choice elements are not read",
     "tests look at some facts of few classes in shipped sets",
     [NM, "punx/schema_manager.py", "punx/nxdl_schema.py"], [("NXDL_Manager, NXDL__definition, NXDL__group, NXDL__field", NM), ("SchemaManager", "punx/schema_manager.py"), ("NXDL_Summary", "punx/nxdl_schema.py")],
     "TLA+ definition of what a NXDL file and a schema declare; TLC enumerates small definitions, they and shipped or random ones are loaded by the real code and judged", NXTRUST)

prop("P18", "Definitions and schemas do not depend on what was loaded before",
     "What a process gets from a file set (its definitions, their defaults, its schema, the verdict on an NXDL file, the tree of an NXDL file) is the same after "
     "any history in that process: other sets loaded, other schemas read, other NXDL files validated or shown, the same set loaded again, also after it was replaced on the disk. "
     "What is used when no set is named is the default at that time, whatever was used before.",
     ["histories"], "all sequences of loading, reading schemas, validating and showing NXDL files with several file sets in one process",
     "tests use one set per process, mostly",
     [NM, "punx/schema_manager.py", "punx/nxdl_schema.py", "punx/singletons.py", CM, "punx/nxdltree.py"], [("get_default_schema_manager", "punx/schema_manager.py"), ("Singleton", "punx/singletons.py")],
     "TLA+ state machine of a process that uses file sets; TLC enumerates histories, each is replayed and compared with processes of one step, which are judged by the specification",
     "Exhaustive for histories to the bound with three sets of different schemas. " + NXTRUST)

prop("P19", "An NXDL file is valid exactly if the schema of the file set says so",
     "The verdict on an NXDL file is that of the XML Schema in the file set which was named, or of the default set: valid only if element structure, "
     "attributes, required items and value types all agree with that schema. "
     "By the API an invalid file (or one that is no XML) raises InvalidNxdlFile and a missing one FileNotFound; by the command line "
     "the exit code is 0 and it says that the file validates exactly if it is valid.",
     ["inputs", "configurations"], "all XML documents and all installed file sets",
     "tests validate few files with one set",
     [NM, "punx/schema_manager.py", "punx/main.py"], [("validate_xml_tree", NM), ("func_validate", "punx/main.py")],
     "TLA+ definition of validity by an XML Schema (content models, attributes, types), read from the set's own schema; random and shipped documents are validated by the real code and judged",
     "Seeded random documents with changes, shipped files, variants of the schema. " + NXTRUST)

prop("P20", "A command line is carried out as written, or refused",
     "The subcommand may be shortened to two or more characters that fit just one; "
     "options may come before or after the names, be shortened if that fits just one, and have their value joined or as the next word; the last one counts; "
     "without them: 5 array items, attributes shown, all statuses, the default file set, 'main' to install. "
     "Anything else (unknown, too short or ambiguous subcommand, unknown option, missing or extra argument, value that is not a number) ends with exit code 2, nothing done; "
     "help and version end with 0; without subcommand it ends with 1 and a message.",
     ["inputs"], "all command lines",
     "tests have some command lines, most of them complete",
     ["punx/main.py"], [("parse_command_line_arguments, MyArgumentParser", "punx/main.py")],
     "TLA+ grammar of the command line; TLC enumerates word sequences, each is given to the real program in a process of its own and judged by what it does",
     "All sequences of few words up to the bound, sampled by outcome. The network is a stand-in.")

prop("P21", "Each command shows what was found, and its exit code tells if it could",
     "validate prints exactly the findings of that data file with that file set which have one of the statuses asked for (in any letter case), the counts of all, the name of the "
     "set, and ends with 0; with an unknown set or status, or a file that is missing or not HDF5, it ends with 1 and prints neither report nor traceback; "
     "tree prints the tree view of the file with the options given, or ends with 1; both recognize NXDL files by their name. "
     "configuration lists all file sets and names the default; install downloads the sets named in their order (those installed only for an update) and ends with 0 only if all are installed; "
     "demonstrate shows report and tree of the sample file; nothing else is changed by any of them.",
     ["inputs", "configurations"], "all commands, options, kinds of files, file sets and contents of the cache",
     "tests look at parts of the output for few commands",
     ["punx/main.py"], [("func_validate, func_tree, func_configuration, func_install, func_demo", "punx/main.py")],
     "TLA+ specification of each command; TLC enumerates requests, each is given to the real program and output, exit code and effects are judged",
     "All requests of the model, sampled for quick, plus seeded random data files. What validation and tree view give is judged by P01 to P13.")

prop("P22", "The tree of an NXDL file shows its whole content, in order",
     "The tree view of an NXDL file has a line each for file and style sheet (that of the default file set for the category of the definition), a title with "
     "name and kind of definition, for definitions other than base classes what they overlay, and then, each level indented, the attributes, the fields sorted by name with type and dimensions (and "
     "their attributes), the links sorted by name with target, and the groups sorted by type with their content; nothing is left out, added or out of order. "
     "A file that is missing, no XML, or of no known category is refused.",
     ["inputs", "configurations"], "all NXDL files and file sets; choice, enumeration, doc and symbols are not shown",
     "tests compare few files",
     ["punx/nxdltree.py"], [("NxdlTreeView.report", "punx/nxdltree.py")],
     "TLA+ definition of the tree of an NXDL file; shipped, random and damaged documents are shown by the real code and judged", NXTRUST)

READY = sys.argv[1:] or json.load(open(os.path.join(HERE, "tools", "ready.json")))
if sys.argv[1:]:
    json.dump(sys.argv[1:], open(os.path.join(HERE, "tools", "ready.json"), "w"))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["line"]) + "\n")
m = dict(version=1, setup_cmd="true", hooks=dict(guard="PUNX_VERIF_UNUSED", enable="no hooks are needed", source_commits=[]),
         checks=[p["check"] for p in P if p["line"]["id"] in READY],
         not_applicable=[dict(property=p["line"]["id"], reason="the check is not finished yet") for p in P
                         if p["line"]["id"] not in READY])
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
