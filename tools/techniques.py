NA = {}
EXH = "explicit-state exhaustive exploration of bounded call histories on the real code, each trace checked against a reference model"
_N = ("Exhaustive within the bounds stated per space in the evidence file (alphabets, depths); every history of the model "
      "is replayed on the code in /repo's working tree. ")
_T = " Trusts numpy/pandas/scipy and the reference model in mc/; nothing is claimed beyond the bounds."
T = {
 "C01": (EXH, _N + "Model: exact moments of the multiset of values fed so far (rationals)." + _T),
 "C02": (EXH + " (all merge trees)", _N + "Model: the profile of the concatenated data." + _T),
 "C03": (EXH, _N + "Model: the sorted values; estimates judged to bin width accumulated over updates/merges." + _T),
 "C04": (EXH, _N + "Model: table of cells with row numbers and null classification." + _T),
 "C05": (EXH, _N + "Model: set of row tuples; HLL judged as a function of that set with stated error." + _T),
 "C06": (EXH, _N + "Model: lexical classes from the documentation and Python float()." + _T),
 "C07": (EXH, _N + "Model: Counter of values plus an explicit stop-condition automaton." + _T),
 "C08": (EXH + " (order automaton)", _N + "Model: order automaton over pieces." + _T),
 "C09": (EXH, _N + "Model: table of written dates with instants and matching formats." + _T),
 "C10": (EXH, _N + "Model: Counters of words and characters." + _T),
 "C11": (EXH + " with save/load at every point", _N + "Model: the same history without save/load." + _T),
 "C12": ("exhaustive fault and crash-point enumeration on the real code: a fault at every I/O call of a save, every torn prefix of a saved file",
         _N + "Quick tier thins the prefixes of JSON files (every 61st and the last 40) and far write calls; thorough enumerates all." + _T),
 "C13": (EXH, _N + "Model: an untouched twin; observed by full report and continuation." + _T),
 "C14": (EXH + " (all ordered pairs of reachable profiles)", _N + "Model: difference computed from the two reports." + _T),
 "C15": ("stateless exploration under a controlled scheduler: every outcome and completion order of the pool's tasks, plus conformance runs on real processes",
         _N + "The controlled pool pickles tasks and results as worker processes do; worker death is outside." + _T),
 "C16": (EXH, _N + "Model: compatible column-name tuples and per-column lists of values." + _T),
 "C17": ("stateless exploration with every random draw enumerated, against a reference model of the sampler's contract",
         _N + "Every shuffle is explored; rows carry distinct powers of two so that the report identifies the rows used." + _T),
 "C18": (EXH + " over configurations", _N + "Model: report of the full profile minus what the options name; formats as projections." + _T),
 "C19": (EXH, _N + "Model: numpy correlation, contingency tables, per-row null sums." + _T),
 "C20": (EXH + " over files and options; sampling with every draw enumerated", _N + "Model: the table the file was written from." + _T),
 "C21": (EXH + " over files and options", _N + "Model: the records the file was written from." + _T),
 "C22": (EXH + " (access, reload and detection histories)", _N + "Model: a new reader of the same input." + _T),
 "C23": (EXH + " with the network replaced by a controlled one", _N + "Model: label of a character is a function of the character." + _T),
 "C24": (EXH, _N + "Model: re.finditer coverage and rapidfuzz scores." + _T),
 "C25": (EXH + " with a controlled model", _N + "Model: sums of confidences and votes." + _T),
 "C26": (EXH + " (all graphs up to the bound)", _N + "Model: plain adjacency sets." + _T),
 "C27": ("exhaustive enumeration of histories x perturbations of the process's other random state, compared with the unperturbed run",
         _N + "Perturbations: global generators, earlier work, hashing, seed by environment." + _T),
 "C28": (EXH, _N + "Model: rows whose value is in the range or list." + _T),
 "C29": (EXH + " (operation histories of labelers; every shuffle of training samples)", _N + "Model: dicts of settings and labels, and a new labeler made of them." + _T),
 "C32": (EXH + " (null arrangements, column selections)", _N + "Oracle: the shapes on the axes, read back, against the table and the report." + _T),
 "C31": (EXH + " (histories of updates, merges, saves over kinds of input)", _N + "Oracle: the same histories on plain tables; a two-variable model of file type and encoding." + _T),
 "C30": (EXH + " (setting histories; all combinations of dependent options)", _N + "Model: a nested dict of the documented options and defaults." + _T),
}
