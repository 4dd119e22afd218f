import json
F=[("C04","9fef674","events with equal timestamps were reordered by the unstable global sort of the OTF2, Projections and CSV readers"),
("C02","1160647","a loading worker that dies or cannot be started left the pool open"),
("C03","1160647","loading waited forever for the result of a loading worker that had been killed"),
("C05","261c687","a Projections PE that crashed had its computation closed at time -1 / more than once"),
("C25","efe9f61","Projections notes, multicast destinations, user event pairs and ids of non-array objects were decoded wrongly or raised"),
("C17","c69257e","idle_time(mpi_events=True) changed the caller's list of idle functions and its own default"),
("C16","c69257e","idle_time() after idle_time(mpi_events=True) counted MPI functions as idle"),
("C12","078b3e2","load_imbalance raised TypeError for every trace"),
("C23","d4eda09","row order of load_imbalance depended on string hash randomisation"),
("C13","cc61dcd","time_profile counted one location per process, so intervals of multi-threaded traces did not add up"),
("C14","a79c700","comm_matrix raised IndexError when some ranks recorded nothing"),
("C09","88638c2","a call became the child of a call that had already ended, after lost records"),
("C10","0e68cf2","different call paths whose names joined by '->' are equal shared a tree node; levels wrong after lost records"),
("C18","2c3657a","an interrupted analysis left some derived columns behind, which later calls took for complete"),
("C07","792f0fa","OTF2 metric readings were attached to the wrong events, or lost, with several metric groups or locations"),
("C01","4340211","OTF2 threads of a process with non-contiguous location ids were merged or misnumbered"),
("C03","5d75fd2","reading a truncated HPCToolkit database looped forever"),
("C02","5d75fd2","a truncated HPCToolkit database loaded with altered events"),
("C06","91e657c","HPCToolkit function names with non-ASCII characters raised or came out wrong"),
("C06","809d11e","HPCToolkit source lines above 65535 were cut off"),
("C06","ae67a2a","HPCToolkit traces without node identifiers could not be loaded"),
("C22","86332b1","Nsight traces of a single process had no Process column, so that every analysis failed"),
("C04","07ac94c","Nsight ranges that touch or are empty were not kept nested"),
("C06","6d5e0ee","HPCToolkit traces with unnamed functions could not be loaded"),
("C02","d62989f","a Projections sts file that was cut off loaded with missing names or an unrelated error"),
("C02","200a267","an empty Projections log file was taken for a PE without events"),
("C01","a6c9cbd","OTF2 timestamps lost precision if one of the loading workers had no events"),
("C02","0b67796","an OTF2 event file that had been cut off loaded as a shorter trace without an error"),
("C03","4730b46","a CSV trace with one malformed time in seconds made loading allocate gigabytes (the text of the time repeated 10**9 times)"),
("C16","90d79d0","detect_pattern failed unless the metric it uses had been calculated before"),
("C24","c0f7b3c","detect_pattern returned events of other processes with equal timestamps"),
("C06","7776d28","HPCToolkit locations without a thread identifier were left out of all analyses"),
("C01","73c0182","Projections times and process ids became floating point numbers (inexact; comm_matrix raised TypeError) if a PE had no events"),
("C01","36fe14f","the order of simultaneous OTF2 events of different locations depended on the number of loading workers"),
("C23","463cb1f","Projections traces with non-ASCII names failed to load, or had other names, depending on the locale"),
("C12","31065b3","flat_profile and multirun_analysis raised ValueError if asked to group by a list of columns, as documented"),
("C25","b9ee8b4","OTF2 traces in which several flags of a bitset are set (files created and truncated, dynamic phase regions) could not be loaded"),
("C21","6ba85ff","floating-point attributes were exported with ten decimals only, so that small ones became 0")]
K=[{"property":"C01","what":"Projections CREATION_BCAST records (type 20, the creation of a broadcast message) are not loaded: the event is missing from the table (an existing test pins the number of create events of its trace without them)","probe":"known_bcast_dropped","identified_by":"exactly the type-20 records of a Projections log are absent from the loaded table and everything else is complete"}]
json.dump({"known":K,"fixed":["fixed: property=%s %s %s"%f for f in F]},open("/verif/known_findings.json","w"),indent=1)
