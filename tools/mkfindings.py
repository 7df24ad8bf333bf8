"""writes KNOWN_FINDINGS.txt: the recorded findings and, from the repair commits in /repo, the fixed ones"""
import subprocess

FIXED = {
    "C35": ["error reports number"],
    "C34": ["sample selects", "types of columns without"],
    "C32": ["a StreamWriter applies the expectations"],
    "C17": ["iterating a DictSet restarts", "an empty DictSet can be held", "COMPRESSED_MEMORY storage keeps", "get_items works for MEMORY"],
    "C30": ["Reader without filters keeps empty"],
    "C18": ["the hash of a DictSet", "collect_list of a column", "take(0) returns", "distinct only removes"],
    "C23": ["a comment in a SQL statement", "GROUP BY a function with", "SELECT can swap names", "a SQL LIMIT of characters", "SQL LIMIT 0", "SQL ORDER BY without", "malformed SQL is refused", "SQL WHERE and functions are applied"],
    "C21": ["LIKE, MATCHES and CONTAINS take", "quoted text in filters", "quoted text in SQL", "LIKE matches text with line breaks"],
    "C20": ["conditions after a comparison with NULL", "LIKE does not match null"],
    "C19": ["collect_set removes", "groups with different values", "aggregations needed more", "aggregations handle zero", "groups with only nulls", "several groups or columns"],
    "C14": ["flatten keeps every element", "records which cannot be read back", "writers accept pydantic", "the last line of a zstd", "line breaks in quoted CSV", "arrays in parquet keep", "flattening keeps empty", "read csv blobs with fields"],
    "C28": ["HTML tables render"],
    "C26": ["parse_iso only accepts", "parse_iso understands numpy", "parse_iso returns None"],
    "C09": ["the writer pool doesn't evict"],
    "C03": ["writers which fail to commit stay", "StreamWriter.finalize reports", "a failed disk commit"],
    "C06": ["blob names are unique"],
    "C11": ["datasets with frame.complete", "partitions and frames whose names", "data in folders whose names include", "folders of the dataset itself"],
    "C13": ["a cursor can be used after"],
    "C16": ["nulls, lists and dictionaries are the same", "slow starting processes", "abandoning a multi-process"],
    "C29": ["a dataset whose last name", "the GCS completion marker", "the MinIO reader lists"],
    "C25": ["DATE, TIME, HOUR, MINUTE", "INTEGER and TRUNC keep", "literals in a select expression", "* in a select expression", "RIGHT of zero", "MD5 doesn't", "columns can be renamed"],
    "C08": ["records which break the schema are backed"],
    "C10": ["a rejected database batch"],
    "C12": ["days with only unreadable"],
}
KNOWN = [
    ("C14", f"poison-parquet-{t}-{n}", f"{what} is accepted by append for a parquet {t} column but makes the commit of its blob raise, so the records buffered with it cannot be written")
    for t, n, what in [
        ("INTEGER", "True", "a boolean"), ("INTEGER", "2^63", "the integer 2^63"), ("INTEGER", "2^70", "the integer 2^70"), ("VARCHAR", "surrogate", "text with a lone surrogate"),
        ("ARRAY<VARCHAR>", "surrogate", "text with a lone surrogate"), ("STRUCT", "intkey", "a dictionary with a key that is not text"), ("STRUCT", "othertype", "a dictionary whose field has another type than in the other records"),
        ("DECIMAL(10,2)", "1e30", "a decimal with too many digits"), ("DECIMAL(10,2)", "1.555", "a decimal with too many decimal places"),
    ]
]
EXTRA_KNOWN = []

log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()
out = ["# findings: 'known:' lines are defects that are recorded, not repaired (a check prints KNOWN-FINDING for them); 'fixed:' lines suppress nothing"]
for p, sig, what in KNOWN + EXTRA_KNOWN:
    out.append(f"known: property={p} signature={sig} {what}")
for line in log:
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        props = [p for p, keys in FIXED.items() if any(s[5:].startswith(k) for k in keys)]
        assert len(props) == 1, (line, props)
        out.append(f"fixed: property={props[0]} {h} {s[5:]}")
open("/verif/KNOWN_FINDINGS.txt", "w").write("\n".join(out) + "\n")
