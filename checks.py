"""Which harness decides which property, and what it needs to be built."""
CHECKS = {}
NOT_APPLICABLE = {}
MODEL = "stateful model-based property testing"


def add(ids, harness, libs, technique=MODEL, over="operation histories", oracle="a reference model", **kw):
    for i in ids:
        CHECKS[i] = dict(harness=harness, libs=libs, technique=technique, over=over, oracle=oracle, **kw)


add(["C01", "C02", "C03", "C04", "C05"], ["h_mem.cpp"], ["core"],
    over="histories of constructing, linking, unlinking, deleting, rooting and collecting objects",
    oracle="a model of reference counts, delete policies and reachability and a ledger of the library's heap")
add(["C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C17"], ["h_cont.cpp"], ["core"],
    over="operation histories on the containers", oracle="sequence, association-list, set, stack and scope models")
add(["C18"], ["h_musl.cpp"], ["core"], over="operation histories on the search primitives", oracle="models of the standard functions")
add(["C15", "C19", "C20", "C21"], ["h_str.cpp"], ["core"], technique="property-based testing with boundary-biased generators", over="inputs and operation histories", oracle="std::string and printf models and a ledger of the library's heap")
add(["C22"], ["h_strview.cpp"], [], technique="property-based testing with exact-size buffers", over="inputs", oracle="definitions on std::string", variants=["src"])
add(["C23", "C24", "C25", "C26", "C27", "C34"], ["h_json.cpp"], ["core", "json"], technique="property-based testing against a reference parser",
    over="JSON values, texts and bytes", oracle="a reference JSON parser, round trips and a ledger of the library's heap")
add(["C28", "C29", "C30", "C31", "C32", "C33"], ["h_json2.cpp"], ["core", "json"],
    over="JSON documents, edit histories, selectors, bytes and files", oracle="models of documents, paths and escapes, and a reference parser", ldflags=["-Wl,--wrap=read", "-Wl,--wrap=write"])
add(["C35", "C36", "C37", "C38", "C39"], ["h_sqlite.cpp"], ["core", "json", "sqlite"],
    over="tables, JSON inputs, failing statements and operation histories", oracle="a model of the table, plain SQL and a ledger of open statements", ldflags=["-lsqlite3"])
add(["C40"], ["h_dbm.cpp"], ["core", "json", "sqlite", "dbm"],
    over="histories of initialisations, scripts, settings and buffers", oracle="the same scripts run on a second database without the library, and the format of the texts", ldflags=["-lsqlite3", "-Wl,--wrap=system"])
