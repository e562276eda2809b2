import json
P=[]
def add(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
H="nephosem/core/handler.py"; T="nephosem/models/typetoken.py"; D="nephosem/models/deprel.py"; B="nephosem/models/cbc.py"; M="nephosem/core/matrix.py"; U="nephosem/utils.py"; V="nephosem/core/vocab.py"; TM="nephosem/core/terms.py"; G="nephosem/core/graph.py"; DU="nephosem/specutils/deputils.py"; MX="nephosem/specutils/mxutils.py"
add("C01","Item frequency list equals a sequential count under every schedule",
 "Building the item frequency list of a corpus returns a vocabulary whose items and frequencies are exactly those obtained by reading every selected corpus file once, line by line, and counting the type string of every line that matches the configured line pattern. This holds for any number of requested workers, any CPU count, any interleaving of the worker processes, any order in which the file system lists the corpus, and however the files are selected (whole corpus directory, list of file names, or a .fnames file).",
 ["schedules","inputs","configurations"],"all interleavings of producer and workers, worker counts 0..n, CPU counts >= 1, directory listing orders, corpora, encodings and type formats",
 "The tests run one small corpus on whatever schedule the host happens to give; they never see an idle worker, one worker taking every job, a single-CPU host, or a reordered result queue.",
 [H,T,V,TM,U],[("job queue with one None per worker",H+" Paralleler.process/_job_producer"),("per-file tallies merged by addition",T+" ItemFreqHandler._process_results")],
 [dict(name="job_queue/res_queue",meaning="jobs and per-file tallies in flight",where=H)],["return value of build_item_freq"])
add("C02","Collocate matrix equals the window definition under every schedule",
 "Building the collocate frequency matrix returns, for every target type of the row vocabulary and every context type, exactly the number of times the context occurs within the left and right span of an occurrence of the target inside the same article (the stretch between separator lines) of the same file; only contexts of the column vocabulary are counted when one is given, and otherwise every context seen becomes a column. Rows are the row vocabulary, and labels and counts always belong together. The result does not depend on worker count, CPU count, process interleaving, or on which worker processed which file.",
 ["schedules","inputs","configurations"],"all interleavings, worker/CPU counts, distributions of files over workers (hence different per-worker column sets), spans, separators, vocabularies",
 "Tests use one toy corpus whose files all land on arbitrary workers; partial matrices with disjoint columns, workers with nothing to report, and short articles at a file end are not reached.",
 [H,T,MX,M,TM],[("sliding window with right flush",T+" ColFreqHandler.update_one_match/process_right_window"),("partial matrices in temporary files, merged on label union",T+" ColFreqHandler._process_results, "+MX+" merge_two_matrices")],
 [dict(name="tmp/<pid>/sub.i.{meta,npz}",meaning="partial matrix of one worker",where=T)],["return value of build_col_freq"])
add("C03","Every queried token is retrieved exactly once, with its own context",
 "Retrieving the tokens of a set of query types yields every corpus occurrence of those types exactly once, identified by its file and line, and nothing else; each token carries exactly the context words in its left and right span within the same article (restricted to the context vocabulary if given), and the token-by-context matrix records for each token exactly those context types, each at a signed offset at which it occurs in that token's context. This is independent of worker count, CPU count, interleaving and file distribution.",
 ["schedules","inputs","configurations"],"all interleavings incl. workers that never obtain a job, worker/CPU counts, spans 0..n, vocabularies, nested corpora",
 "A lost or doubled token needs a worker that finishes without work before its siblings deliver; the tests never control that.",
 [H,T,TM,MX],[("progress markers and per-worker token maps on one result queue",T+" TokenHandler._worker_loop/_process_results"),("TypeNode.merge",TM)],
 [dict(name="type2toks",meaning="tokens found so far by one worker",where=T)],["return value of retrieve_tokens","type2toks after the call"])
add("C04","Dependency matrix equals exhaustive pattern matching under every schedule",
 "Building a dependency matrix counts, for each target and feature, every way in which a macro's pattern tree maps onto a sentence tree of the selected files (distinct sentence nodes, all node and edge patterns satisfied), with non-tree sentences contributing nothing and, if targets are given, only matches whose target is one of them; without targets all matches count. Type mode aggregates by target type, token mode by token identity. The result does not depend on worker count, CPU count, interleaving or file distribution.",
 ["schedules","inputs","configurations"],"all interleavings and worker/CPU counts; generated dependency trees, patterns, macros, target lists, modes",
 "No stable test exercises the parallel dependency build; merging of per-file matches under other schedules is untested.",
 [H,D,G,DU],[("per-file copies of the macros, merged by extension",D+" DepRelHandler._do_process_job/_process_results"),("level-wise tree matching",DU+" tree_match")],
 [dict(name="macros[i].matched_nodes/edges",meaning="matches collected",where=D)],["return value of build_dependency"])
add("C05","Multi-core CBC clustering equals single-core clustering",
 "Clustering by committee with the multi-core option returns the same committees and residues, in the same order, in every recursion as the single-core option, for any CPU count, any assignment of work to pool workers (including one worker process taking several tasks), any interleaving and any directory listing order. Both options return a result whether the association and distance matrices are given or left to be computed from the frequencies. Clusterings of the same user running at the same time, or one killed earlier, do not influence the result of another.",
 ["schedules","inputs","configurations"],"pool schedules, CPU counts >= 1, task-to-worker assignments, listing orders, concurrent runs started in the same minute, generated frequency matrices with and without score ties",
 "The multi-core path is not run by the stable tests at all, and needs specific pool schedules and minute-granular clocks to fail.",
 [B,U],[("scratch directory shared with pool workers",B+" cbc_step1_multicore/cbc_step1_call"),("cluster cleaning",B+" clean_clusters/remove_duplicate")],
 [dict(name="~/.cbc/<time>/L/<pid>",meaning="clusters found by one pool task",where=B)],["return value of CBC.cluster"])
add("C06","A failed worker or file never yields a hang or a silently partial result",
 "If during a corpus build (item frequencies, collocates, tokens, dependencies) a corpus folder or file cannot be listed, opened, read or decoded (also when it ends in the middle of a character), a temporary file cannot be written or read back, or a worker process dies at any point, the call ends in bounded time, either with an exception or with exactly the complete result. It never blocks forever and never returns a result that omits or duplicates part of the corpus. The same holds for multi-core clustering when reading or writing its intermediate files fails or a pool task raises.",
 ["fault_sequences","crash_points","schedules"],"every I/O operation as a failure point (ENOENT, EACCES, EIO, ENOSPC, undecodable bytes), every interaction point of a worker as a kill point, under random schedules",
 "Tests inject no faults and a hang cannot be asserted by them.",
 [H,T,D,B],[("worker start/join and result collection",H+" Paralleler.process")],
 [dict(name="worker exit status",meaning="whether a worker ended normally",where=H)],["return or exception of the build call","deadlock detector of the simulator"])
add("C07","A rebuild after a crash is correct and a successful build leaves no litter",
 "After a build process was killed, or a build failed, at any point, running the same build again with the same settings and directories returns exactly the correct result, whatever temporary files or reused process ids the earlier attempt left behind. A build that completes successfully leaves no temporary result files of its own in the temporary directory nor anywhere else, nor the folders it made there to hold them, and never changes the corpus.",
 ["crash_points","fault_sequences","histories"],"session kills at every interaction point, failed builds, 1..3 crashes before the final build, process-id reuse",
 "Tests always start from whatever state the last complete run left and never crash a run.",
 [H,T,U],[("per-process temporary directories",H+" Paralleler.subtmpdir"),("temporary file removal after merge",T+" ColFreqHandler._process_results")],
 [dict(name="tmp-path",meaning="temporary directory, survives crashes",where=H)],["return value of the rebuild","content of tmp-path and corpus-path"])
add("C08","Concurrent sessions and user files are isolated from each other",
 "Several sessions of the same user may construct handlers and run builds at the same time, sharing home, default or explicit temporary and output directories: each build returns exactly its own correct result. Constructing a handler or running a build never deletes or alters a file it did not create, in particular files in the default output/temporary directory, and tmp-path and output-path need not be given. Temporary files are created only in the temporary directory of the session: tmp-path, else the folder tmp in output-path, else ~/tmp.",
 ["schedules","configurations","histories"],"2..3 concurrent sessions, all interleavings of their file operations and processes, all combinations of tmp-path/output-path settings",
 "Tests run one session at a time and keep nothing valuable in the default directory.",
 [H,U,T],[("default temporary directory",H+" Paralleler.__init__, BaseHandler.__init__"),("make_dir/clean_dir",U)],
 [dict(name="~/tmp",meaning="default tmp and output directory shared by all sessions",where="nephosem/__init__.py")],["results of each session","sentinel files"])
add("C09","Saved matrices load back exactly, and a failed save never mixes versions",
 "After saving a matrix succeeded, loading that name returns the same labels, shape and values, in both packed and unpacked form, sparse or dense, whatever was saved under that name before and in whatever sequence. If a save is interrupted by a crash or an I/O error, a later load returns exactly the previous matrix or exactly the new one, or for the unpacked two-file form may instead raise; it never returns labels of one with values of another, or truncated data. Loading a packed matrix while it is being saved also gives the previous or the new one. Saving one form does not destroy a matrix saved in the other form under the same base name, and saving leaves the matrix in memory unchanged.",
 ["histories","crash_points","fault_sequences","inputs"],"histories of saves/loads over a few names with packed/unpacked, sparse (csr, csc)/dense matrices; crash or error at each I/O operation of a save",
 "Tests save once and load once to a clean name, without errors.",
 [M],[("meta file + npz/npy, zipped into .pac",M+" TypeTokenMatrix.save/load")],
 [dict(name="<name>.meta/.npz/.npy/.pac",meaning="saved matrix",where=M)],["TypeTokenMatrix.load"])
add("C10","Loading a matrix is read-only and safe to do concurrently",
 "Loading a saved matrix changes no file: the directory holds the same files with the same content afterwards, and it works where the directory cannot be written. Any number of processes may load the same or differently named saves in one directory at the same time, and while unrelated saves run; each load returns exactly the matrix saved under its name.",
 ["schedules","histories","fault_sequences"],"interleavings of 2..4 loading processes at file-operation granularity, loads interrupted by a kill, write-protected or full disks",
 "Tests load from one process; extraction side effects next to the archive are invisible to them.",
 [M],[("unpacking of .pac",M+" TypeTokenMatrix.load")],
 [],["TypeTokenMatrix.load","directory snapshot"])
add("C11","Saved vocabularies load back exactly, and a failed save keeps the old one",
 "A vocabulary saved in JSON or plain format with an encoding that can represent it loads back with the same items and frequencies (in plain format for items without tab or line-break characters); saving leaves it unchanged in memory. If saving fails or is interrupted at any point (unencodable item, disk error, full disk, killed process), loading the file afterwards gives exactly the previously saved vocabulary or exactly the new one, never a truncated or mixed one; so does loading it while it is being saved.",
 ["crash_points","fault_sequences","histories","inputs"],"crash or error at each I/O operation of a save over histories of saves under the same name, encodings, formats",
 "Tests write once without failures.",
 [V,U],[("whole-file rewrite",U+" save_dict_json/save_dict_plain")],
 [dict(name="vocabulary file",meaning="json or item<TAB>freq lines",where=U)],["Vocab.load"])
add("C12","A failed object save never damages the object in memory",
 "Saving a persistent object (the save/load base class) that fails at any point, including while storing large or nested parts separately, raises and leaves the in-memory object with all its attributes and array contents, so that saving it again later succeeds. After a successful save the loaded object equals the saved one, ignored attributes being None, and the in-memory object is unchanged as well.",
 ["fault_sequences","histories","inputs"],"I/O error at each operation of a save; objects with dense/sparse/nested parts, separate storage, ignored attributes, compressed names; retries after failure",
 "Tests do not exercise this class at all.",
 [U],[("attributes set aside during pickling and restored",U+" SaveLoad._smart_save/_save_specials")],
 [dict(name="asides",meaning="attributes temporarily removed from the object",where=U)],["object attributes after failed save","SaveLoad.load"])
add("C13","Random selections are exact in size, distinct, and leave the source intact",
 "For every state of the random generator, sampling tokens of a type, selecting appearances of words, or sampling rows of a matrix returns members of the source only, without repetition (unless replacement was asked for), as many as requested or all if fewer exist (a matrix may refuse to give more rows than it has); selected rows keep their own labels and values. Sampling never changes its source, the same generator state gives the same selection, and over generator states every member, and every combination of as many members, can be selected.",
 ["schedules","inputs","histories"],"generator states (seeded random source), sizes 0..n and larger than the population, repeated sampling",
 "Tests fix one draw or none; sampling of type nodes is untested.",
 [TM,M,V],[("random.sample / numpy choice",TM+" TypeNode.sample, "+M+" TypeTokenMatrix.sample, "+V+" Vocab.select_subsets")],
 [],["returned samples"])
add("C14","Reusing a handler gives the same results as a fresh one",
 "Running builds repeatedly on one handler object, in any sequence of file selections and with failed builds in between, returns for each call exactly what a newly constructed handler with the same arguments (vocabularies given to a call included) would return, and no later call changes a result returned earlier. Each call reads the files as they are at that time, also when files of the corpus were added, removed or replaced since the call before. Builds never modify the settings, vocabularies, query lists, lists of file names or templates that the caller passed in.",
 ["histories","schedules","fault_sequences"],"sequences of 2..4 builds on one handler with varying files, vocabularies and schedules, optionally a failing build in between",
 "Each test constructs a new handler per build.",
 [H,T,D],[("handler state carried between calls",T+" TokenHandler.type2toks, "+D+" DepRelHandler.macros")],
 [dict(name="type2toks/macros/row_vocab/col_vocab",meaning="state kept on the handler",where=T)],["return value of each build","arguments after each build"])
add("C15","Settings, file lists, queries and templates are read whole or not at all",
 "Reading a configuration file, a list of file names (.fnames), a corpus folder, a list of query words, a pattern file (GraphML or TSV) or a macro file (XML) either yields every entry the file holds, with the values written there and in their order, or raises an exception: when a file or folder is missing, or cannot be opened, listed, read or decoded completely (a list that ends in the middle of a character, markup that is not well-formed, a template row without its pattern, a macro naming a pattern that does not exist), the caller never gets a shorter list, a default or an empty result instead (only a list of query words that does not exist counts as empty). What is read is the file's content at the time of the call, also when the file changed since an earlier read. Comment and blank lines are skipped; base names in a .fnames file belong to the corpus folder. A loaded configuration is exactly the defaults overlaid with the entries of the file, spans being integers (a span that is not an integer raises); loading never changes the defaults, whether it succeeds or fails. Any number of processes of one user may start (import the package, set up its logging and ~/tmp folder) and read at the same time, also in a new home directory.",
 ["fault_sequences","inputs","schedules"],"every open, listing and read of these files as a failure point; missing files; generated configurations, lists, templates and file layouts; several sessions starting and reading at once",
 "Tests read intact files in one process; a swallowed read error shows as default settings or a missing template, which no test would see.",
 ["nephosem/conf.py",U,G,"nephosem/logging.py"],[("ConfigLoader.update_config","nephosem/conf.py"),("read_fnames/read_fnames_of_corpus/read_word_queries",U),("PatternGraph.read_graphml/read_csv, MacroGraph.read_xml",G),("init_logging","nephosem/logging.py")],
 [],["returned settings, lists, patterns and macros, or the exception"])
add("C16","Exports hold the whole object when the call returns, or the call raises",
 "When exporting a matrix as CSV (TypeTokenMatrix.to_csv), the concordance of retrieved tokens (save_concordance) or a type with its tokens as JSON (TypeNode.save) returns normally, the file holds the complete export in the requested encoding: for a matrix every row, column, label and value; for tokens every token once with its identifier, target and left and right context words in order. Reading an exported matrix back (TypeTokenMatrix.read_csv), sparse or dense, gives the same labels and values; loading a saved type (TypeNode.load) gives the same type and tokens with their context words. If anything fails (text the encoding cannot represent, disk error, full disk, lack of memory, interrupt), the call raises. In either case the exported object is unchanged in memory, and exporting it again later succeeds.",
 ["fault_sequences","inputs","histories"],"errors, torn and short writes, full disks, memory errors and interrupts at every operation of an export; generated matrices and token builds; encodings; retries",
 "No stable test checks the exported text, and none makes a write fail.",
 [M,U,TM],[("TypeTokenMatrix.to_csv/read_csv/dataframe",M),("save_concordance",U),("TypeNode.save",TM)],
 [],["exported files","exceptions","TypeTokenMatrix.read_csv"])
add("C17","A token study resumed over sessions and crashes equals its definition",
 "A token-level study (vocabulary, co-occurrence matrix and its marginals, association matrix, retrieved tokens, token weights, second-order matrix, token vectors, distances, similarities and ranks), with every step saved to a file and the study carried on by later sessions from whatever files load, gives at every step the result that step's definition assigns to the corpus: no matter how many sessions were killed, interrupted or failed with an error on the way, at which operation, with how many workers, or whether two sessions worked on it at the same time. Labels and values belong together at every step: the weight of a context for a token is the association of the token's type with it if it occurs in the token's context window and zero otherwise, and a token vector is the (optionally averaged, multiplied or normalised) combination of the second-order vectors of its contexts. A session in which nothing fails completes.",
 ["fault_sequences","histories","schedules","inputs"],"sessions killed or failing at every operation of a study, any number of resumptions, two sessions at a time, all schedules of the workers; corpora, spans, measures, operations, normalisations, metrics, file formats",
 "Tests run each step on its own, from committed matrices, and never resume a study or combine the steps.",
 [M,T,H,"nephosem/specutils/mxcalc.py"],[("compute_association, compute_token_weights, compute_token_vectors, compute_distance","nephosem/specutils/mxcalc.py"),("TypeTokenMatrix.save/load",M),("build_item_freq, build_col_freq, retrieve_tokens",H)],
 [],["results of every step","files","exceptions"])
add("C18","The log holds every warning of every process once",
 "Every message of level WARNING or above that a session, one of its worker processes or one of its threads logs through the library's loggers ('nephosem' and those below it) is in the log file (~/tmp/nephosem.log, or the file named last with change_log_file) exactly once, whole, in UTF-8 and with its level, when the logging call returns, also when the process is killed right afterwards; messages below WARNING never are, whatever the level of the logger. What the log file held before stays in front, whether the session starts, starts again (init_logging) or changes the log file; sessions and workers writing to the same log at the same time lose nothing of each other's messages, and messages of one process keep their order. Every message its logger lets through is on the console once, with its arguments filled in. A log that cannot be written (full disk, I/O error) makes no build fail and changes no result.",
 ["schedules","fault_sequences","histories","inputs"],"all messages and levels, sequences of starts, log file changes, level changes and builds, one to three sessions with workers, pools and threads at a time; kills, interrupts, memory errors and I/O errors at every operation",
 "No test looks at the log, runs two processes that log, or kills one.",
 ["nephosem/logging.py"],[("init_logging, create_file_handler, change_log_file, DefaultFormatter","nephosem/logging.py")],
 [],["log files","console","results of builds"])
# pure ones
def pure(id,title,statement,over,text,why,files,mech):
    add(id,title,statement,over,text,why,files,mech)
MC="nephosem/specutils/mxcalc.py"
pure("P01","Association measures equal their contingency-table definition",
 "For every frequency matrix and marginal totals, each association measure equals its textbook formula on the 2x2 contingency table of the row and column item, with non-positive values clipped only for the positive variants.",["inputs"],"all frequency matrices and measures","Tests check one matrix per measure.",[MC],[("compute_association",MC)])
pure("P02","Distance, similarity and rank matrices are well-formed",
 "Distance and similarity matrices computed from any matrix are symmetric with the proper diagonal, equal the metric applied to each row pair, and rank matrices are row-wise rankings of them.",["inputs"],"all matrices and metrics","Tests sample one matrix.",[MC],[("compute_distance/compute_simrank",MC)])
pure("P03","Selecting, reordering, dropping, merging keep labels and values together",
 "For any matrix and any selection, reordering, dropping of empty rows, transposition, concatenation or merge, the value at a pair of labels in the result is the value at those labels in the source.",["inputs"],"all matrices and operations","Tests sample one matrix per operation.",[M,MX],[("submatrix/reorder/drop/merge",M)])
pure("P04","Vocabulary selection and arithmetic operations follow their definition",
 "For every vocabulary, slicing, frequency comparison, pattern match, item selection, sorting and summation return exactly the items and frequencies satisfying the condition.",["inputs"],"all vocabularies and conditions","Tests sample one vocabulary.",[V],[("__getitem__ and comparison operators",V)])
pure("P05","Dependency templates and macros are parsed to the tree they denote",
 "Every template in the regular-expression notation, GraphML or macro XML is parsed to a pattern whose nodes, edges, defaults, target and feature positions are those written.",["inputs","programs"],"all template files","Tests parse a fixed set.",[G,DU],[("parse_pattern, read_graphml, read_xml",G)])
pure("P07","Token weighting and token vectors are linear combinations of type vectors",
 "For any token-context matrix and type weights, the token weight matrix and second-order token vectors equal the sum or product combination of the context type vectors.",["inputs"],"all matrices","Tests sample one matrix.",[MC],[("compute_token_weights/compute_token_vectors",MC)])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,s); assert len(p['title'])<=80,(p['id'],len(p['title']))
