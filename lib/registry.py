"""Which parts decide which property."""
import checks_coherent as K
import checks_equality as Q
import checks_errors as E
import checks_literal as B
import checks_loader as L
import checks_scale as Z
import checks_session as S
import checks_total as T
import checks_words as V
import checks_writer as W

MC = "model_checking"
TECH = "TLA+ specification checked with TLC; TLC-generated and random inputs run on the library, every trace validated by TLC against the specification"
NOTE = ("The specification is checked exhaustively within bounds; the library is compared with it on the inputs explored. "
        "Trusts TLC, the adapter's projection, and the exact-arithmetic oracle for decimal numbers.")
CHECKS = {
    "C01": (MC, "inputs of every kind, well formed or not", [T.c01]),
    "C02": (MC, "files with a skeleton of at least one joint", [L.c02, Z.c02]),
    "C03": (MC, "trees and searches", [S.c03, B.trees, Z.c03]),
    "C04": (MC, "files with channels", [L.c04_loader, S.c04, B.columns, Z.c04]),
    "C05": (MC, "files with a motion section", [L.c05, Z.c05]),
    "C06": (MC, "texts with a defect", [L.c06, Z.c06]),
    "C07": (MC, "layouts of the same statements", [L.c07]),
    "C08": (MC, "failing readers", [L.c08, Z.c08]),
    "C09": (MC, "histories with a reload", [S.c09, Z.c09]),
    "C10": (MC, "writes of Bvhs, each judged line by line", [W.c10]),
    "C11": (MC, "deliveries to writers that answer as they please", [W.c11]),
    "C12": (MC, "histories of cursor commands", [S.c12]),
    "C13": (MC, "histories of cursor commands", [S.c13]),
    "C14": (MC, "histories of iterations", [S.c14]),
    "C15": (MC, "histories of value accesses", [S.c15]),
    "C16": (MC, "literals of the macro", [B.c16]),
    "C17": (MC, "histories over several Bvhs", [S.c17]),
    "C18": (MC, "conversions of byte strings to channel types", [V.c18]),
    "C19": (MC, "inputs that are accepted", [K.c19]),
    "C20": (MC, "errors of loading, inserting, removing and setting", [E.c20]),
    "C21": (MC, "comparisons of Bvhs and their parts", [Q.c21]),
    "C22": (MC, "histories of settings of write options", [Q.c22]),
}
MANIFEST = {p: (CHECKS[p][0], TECH, NOTE) for p in CHECKS}
