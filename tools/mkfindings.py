"""Writes /verif/known-findings.json (genuine defects that were recorded or repaired)"""
import json, os, subprocess
FIXED = [  # property, commit subject, what failed
 ("C01", "write the UUID attribute of every identifiable element", "uuid of packages, elements and their parts was read but never written"),
 ("C01", "escape XML special characters in written texts and attributes", "names or texts with & < > or quotes gave files that cannot be read"),
 ("C06", "close the output file when writing it fails", "a write that failed half-way left the file open, its buffered rest reached the disk later"),
 ("C07", "readers and writers no longer carry the schema version of earlier documents", "a document without schema information was read with the schema version of the document read before it, write_str_elem used the version of the last document"),
 ("C01", "read mixed text content completely", "text behind inline elements was lost when reading"),
 ("C01", "accept every inline element that mixed text content can hold", "constructors rejected inline elements the reader and writer support"),
 ("C01", "write all annotations of an element inside one ANNOTATIONS element", "the second and later annotations were lost"),
 ("C01", "write integral floats of 1e28 and above", "decimal.InvalidOperation while writing a large float"),
 ("C01", "a unit keeps the physical dimension reference it is given as string", "Unit dropped a physical dimension reference given as string"),
 ("C01", "a client-server interface accepts a single possible error", "ClientServerInterface raised for a single possible error"),
 ("C01", "read the validity of scale constraints", "VALIDITY of scale constraints was lost when reading"),
 ("C01", "a provide-require port accepts a list of provided com-specs", "PRPortPrototype raised for a list of provided com-specs"),
 ("C06", "close the type header file when writing it fails", "a failed header write left the file open, its buffered rest reached the disk later"),
 ("C12", "the type header no longer depends on failed or repeated type requests", "a failed or repeated request made the header incomplete or define types twice"),
 ("C12", "type references honour their type emitter", "type references marked as emitted elsewhere were defined in the header"),
 ("C14", "templates shared by several others are applied once per application, not on every path to them", "applying a template took exponentially many steps when templates share dependencies (30 layers of two never finished)"),
 ("C12", "the type header is generated in time that grows with the types, not with the paths between them", "generating the header took exponentially many steps for types used more than once (30 records of two members never finished)"),
 ("C01", "keep the sign of negative zero in documents", "negative zero was written as the integer -0, read back as 0, so a document changed when it was saved again"),
 ("C12", "generate the header of requested pointer types instead of failing", "a requested pointer type made header generation fail"),
 ("C03", "writing documents leaves the workspace's packages and elements in place", "writing moved packages and elements into the written documents, later lookups, references and writes were wrong"),
 ("C16", "accept a single suffix filter and a document without packages", "a single suffix filter was taken apart into characters, a document without packages failed half-way"),
 ("C13", "reject duplicate packages and objects that are not packages", "a duplicate package name silently made the earlier package unreachable"),
 ("C13", "a package can't be appended to itself or to a package below it", "such a call was accepted: the package was lost from its tree, references and root_collection never ended"),
 ("C13", "an element of an implementation data type can't be appended to itself or to one of its parts", "such a call was accepted, references and writing never ended"),
 ("C13", "creating packages from paths creates all of them or none", "a rejected path left the packages before it behind"),
 ("C08", "read the introduction and annotations of identifiable elements", "introduction and annotations were lost when reading"),
 ("C01", "write numbers in scientific format without losing digits", "numbers in scientific format lost digits"),
 ("C08", "an element or package that can't be read no longer prevents reading the others", "one unreadable element or package made the whole document unreadable, or was dropped without a diagnostic"),
 ("C16", "loading an invalid config file leaves the workspace unchanged", "entries before an invalid one stayed applied, loading the corrected file then failed"),
 ("C16", "reject config entries that don't name an element type or behavior setting", "such entries were accepted and failed later, or replaced methods"),
 ("C15", "names made unique are unique for every base name and list", "make_unique_name_in_list could return names already in the list"),
 ("C15", "creating an event that is rejected doesn't rename existing events", "a rejected event creation renamed existing events"),
 ("C15", "access points appended to a runnable keep unique names", "appended access points could share a name"),
 ("C15", "a rejected port access call adds nothing to the runnable", "accesses before the rejected one stayed behind"),
 ("C15", "mode access points appended to a runnable keep unique names", "mode access points could share a name"),
 ("C13", "set the parent of elements given to constructors and append methods", "elements given to constructors or append methods had no parent, their own reference was None although they were part of a package"),
 ("C13", "a rejected extend call adds nothing to an application record", "extend with an unusable object left the elements before it behind"),
 ("C15", "rejected port api options and duplicate runnables leave the behavior unchanged", "a second runnable of the same name was added, rejected options left earlier ones behind"),
 ("C12", "the type header is valid C and gives C linkage in C++", "the header opened extern \"C\" when it was NOT compiled as C++, so no C compiler accepted it"),
 ("C12", "arrays with implementation policy, size handling or size semantics reach the model", "an array data type with such a property was rejected with a ValueError"),
 ("C18", "operations accept possible errors as a list of path strings", "ClientServerOperation(possible_error_refs=[\"/path\"]) raised TypeError although the parameter is documented as list of str"),
    ("C01", "a value group keeps the values of a SwValues object", "ValueGroup(values=SwValues(...)) silently dropped the values"),
 ("C17", "a created port keeps the com-spec object it is given", "create_p_port and create_r_port dropped a com-spec object, and accepted anything else as com-spec, without notice"),
 ("C17", "set the parent of created delegation and pass-through connectors", "such connectors had no parent"),
 ("C17", "pass-through connectors take each port in its own role", "the first port named was taken as the provide-port even when it was a require-port; two ports of one direction were accepted"),
 ("C17", "reject delegation connectors between ports of opposite direction", "a provide-port of an inner component could be delegated to a require-port"),
 ("C19", "unknown content of a composition is not read as component prototype", "an unknown element beside the component prototypes of a composition was read as one more prototype"),
 ("C19", "unknown content of value groups is reported as any other", "unknown content of a value group was reported without file and line, repeatedly, and even when reporting was switched off"),
 ("C17", "reject created ports and component prototypes whose name is already used", "a second port or prototype of the same name was added and never found again"),
 ("C19", "administrative data with unnamed, nested or captioned groups can be read", "an element or package whose ADMIN-DATA holds a group without GID or without SD (nested, captioned, references) was dropped, with stop_on_error reading failed"),
 ("C20", "comments, processing instructions and encoding declarations do not change text that is read", "a comment or processing instruction inside a text cut the text short (names, references, numbers); a string whose declaration names another encoding was decoded as that"),
 ("C01", "texts that XML cannot carry are refused when they are written", "writing a text or name with a control character (U+0000..U+001F, U+FFFE, U+FFFF) returned normally and left a file no XML parser accepts"),
    ("C13", "paths below a part lead nowhere, nested type elements are found by their references", "find() with a path that goes on below a port, component prototype or connector returned that part, below an element without parts it raised AttributeError, and the reference a nested ImplementationDataTypeElement reports raised AssertionError"),
    ("C03", "packages inside other packages keep their path in configured documents", "create_document(file, packages='/A/B') wrote package B at the root of the file, so that nothing in it could be found under its own reference; '/A/X' and '/B/X' could not share a file, '/A' with '/A/B' held B twice"),
]
MARK = [("C01", "constructor-drops", ".admin_data: NoneType instead of AdminData",
         "Unit(admin_data=AdminData()): admin data given to a constructor is dropped (neither stored nor written; AdminData is not implemented by the writer)",
         {"$": "Unit", "a": {"name": "U1", "admin_data": {"$": "AdminData", "a": {}}}}),
        ("C01", "write-raised", "KeyError: 'ServiceKind'",
         "SenderReceiverInterface(service_kind=...): a document with a service kind can't be written, KeyError 'ServiceKind' (the enumeration has no XML names; the reader skips SERVICE-KIND)",
         {"$": "SenderReceiverInterface", "a": {"name": "I1", "service_kind": {"e": "ServiceKind.COM_MANAGER"}}})]


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout
    commits = {line.split(" ", 1)[1]: line.split(" ", 1)[0] for line in log.splitlines()}
    fixed = []
    for prop, subject, what in FIXED:
        fixed.append(f"fixed: property={prop} {commits['fix: ' + subject]} {what}")
    left = [s for s in commits if s.startswith("fix: ") and s[5:] not in {f[1] for f in FIXED}]
    assert not left, left
    findings = []
    for prop, kind, match, what, elem in MARK:
        plan = {"doc": {"schema_version": 51, "packages": [{"name": "P", "attrs": {}, "elements": [elem], "packages": []}]},
                "attempts": [], "final": [], "read": [], "prior": "none", "same_writer": True}
        findings.append({"property": prop, "kind": kind, "match": match, "what": what, "plan": plan})
    out = {"findings": findings, "fixed": fixed}
    path = os.path.join(os.path.dirname(__file__), "..", "known-findings.json")
    with open(path, "w", encoding="utf-8") as handle:
        json.dump(out, handle, indent=1)
        handle.write("\n")


main()
