# More properties: exec'd by mkprops.py.
prop("C16", "Saved clusterings load back as they were",
     "Saving a model writes exactly its partition of relations and of entities, by name, and loading the file with "
     "the same schema and observations restores that partition and all observed values, whatever the seed, for IRM "
     "and HIRM, in the library and on the command line.",
     ["histories", "inputs"],
     "all models reached by any moves, over schemas with latent and noisy relations, and any entity names without "
     "white space",
     "The tests save and load two or three fixed models and compare some of the clusters.",
     ["cxx/util_io.cc"], [("to_txt, load_clusters_irm, load_clusters_hirm, from_txt", "cxx/util_io.cc")],
     ["the saved text; the state of the model loaded from it"],
     note=NOTE + " Known finding F4 (names with spaces) is exempted by its own history.", tech=TV)
prop("C17", "Schemas and observations are read as written, and stored whole",
     "Reading a schema yields exactly the relations its text declares, and texts outside the language are refused, "
     "never misread out of bounds. Reading observations yields each row once; entity codes are a bijection per "
     "domain; incorporating stores exactly the observed tuples and values and the base tuples they need; written "
     "observations read back as generated; held-out likelihoods are the model's.",
     ["inputs"], "all texts of the schema language and mutations of them; all observation files over such schemas",
     "Tests read a handful of fixed files; truncated and reordered lines, comments, quoting, repeated entities and "
     "chains of latent relations are not sampled.",
     ["cxx/util_io.cc", "cxx/util_parse.cc"],
     [("tokenize", "cxx/util_parse.cc"), ("load_schema, load_observations, calculate_encoding, "
      "incorporate_observations, write_observations, logp", "cxx/util_io.cc")],
     note=NOTE + " Known finding F5 (commas in generated strings) is exempted by its own history.", tech=TV)
prop("C21", "Comma separated tables are read and written faithfully",
     "Reading a comma separated table yields its columns and cells in order, including empty ones, and refuses tables "
     "with ragged rows; writing a table and reading it again gives the same table.",
     ["inputs"], "all tables with distinct column names and cells without commas and line breaks, with blank lines, "
     "trailing blanks, empty cells and missing cells anywhere",
     "The tests read four small tables.",
     ["cxx/pclean/csv.cc"], [("DataFrame::from_csv, to_csv", "cxx/pclean/csv.cc")], note=NOTE, tech=TV)
prop("C23", "The k cheapest string alignments are found",
     "For two strings and any additive non-negative edit costs, the alignments returned are distinct, valid "
     "transcripts of one string into the other, carry their own cost, come in order of cost, and are the k cheapest "
     "of all alignments (all of them when there are fewer).",
     ["inputs"], "all pairs of strings of up to four characters, k and costs that are generated; the specification "
     "enumerates every alignment",
     "Tests compare a few hand-made alignments; optimality over all alignments is not checked.",
     ["cxx/emissions/string_alignment.cc"], [("topk_alignments", "cxx/emissions/string_alignment.cc")],
     note=NOTE, tech=TV)
prop("C24", "The command line program is reproducible and keeps to its inputs",
     "Running the program twice with the same seed and arguments writes identical clusters, samples and held-out "
     "likelihoods. Its output partitions exactly the schema's relations and the observed entities; zero iterations "
     "from saved clusters write those clusters back and report the held-out likelihood of that model; bad arguments "
     "and missing files are refused.",
     ["inputs", "histories"], "all schemas, observations, seeds, modes, iteration counts and saved models",
     "Integration tests only look at the exit code.",
     ["cxx/hirm_main.cc", "cxx/util_io.cc", "cxx/inference.cc"],
     [("main", "cxx/hirm_main.cc"), ("inference_irm / inference_hirm", "cxx/inference.cc")],
     ["the files the program writes and what it prints"], note=NOTE, tech=TV)

NOTEL = NOTE + (" Laws are judged by frequencies over 7000 models each, drawn from the prior and moved by the kernels, "
                "at 6.5 standard deviations, so small distortions of a probability go unseen.")
prop("C18", "PClean schemas are read as written and translated faithfully",
     "Reading a PClean schema yields the classes, variables, parameters and query its text declares; texts outside the "
     "language are refused. The relational schema made of it has exactly the relations, domains, distributions, noise "
     "models and chains of noise that the classes and observed paths call for, under every setting of the options, and "
     "each value is about the entities found by following its path.",
     ["inputs"], "all schema texts and mutations of them; all acyclic class structures, with shared and repeated "
     "ancestors, both settings of only_final_emissions and of record_class_is_clean",
     "The tests translate three fixed schemas.",
     ["cxx/pclean/io.cc", "cxx/pclean/get_joint_relations.cc", "cxx/gendb.cc"],
     [("read_schema", "cxx/pclean/io.cc"), ("make_relations_for_queryfield, compute_domains_for, get_relation_items",
      "cxx/gendb.cc"), ("get_distribution_spec", "cxx/pclean/get_joint_relations.cc")], note=NOTE, tech=TV)
prop("C19", "Rows of a database are stored whole and linked consistently",
     "Incorporating a row stores exactly its observed values, along with the references and the clean values behind "
     "them that they need; nothing that was there changes. Every value is about the entities its references lead to, "
     "every reference is seated at the entity it names, rows that are to have entities of their own get them, and the "
     "score is that of the references plus that of the values.",
     ["histories", "inputs"], "all schemas, rows with any cells missing, tables, generated rows, in any mixture with "
     "transitions",
     "Tests incorporate a few complete rows in fixed schemas and compare sizes.",
     ["cxx/gendb.cc", "cxx/pclean/pclean_lib.cc"],
     [("incorporate, incorporate_query_relation, sample_entities_relation, get_unique_entities_relation, logp_score",
       "cxx/gendb.cc"), ("incorporate_observations", "cxx/pclean/pclean_lib.cc")],
     ["the references, entity clusters, relations and score after each operation"], note=NOTE, tech=TV)
prop("C20", "Moving references keeps the data and draws from the conditional",
     "A transition of a reference changes that reference only: every row keeps its observed values, values of entities "
     "that are still referred to stay, entities nothing refers to vanish with all their values and seats, and whoever "
     "does not move keeps its cluster. Transitions leave the joint law of models and data as it is: references stay "
     "Chinese restaurant processes when the data are drawn from the model.",
     ["histories", "inputs"], "all databases, references, entities and sequences of transitions mixed with rows and with "
     "transitions of the relational model",
     "Tests transition one reference in one schema and check that counts are the same; neither the law nor nested, "
     "shared and singleton entities are sampled.",
     ["cxx/gendb.cc", "cxx/inference.cc"],
     [("transition_reference and what it calls", "cxx/gendb.cc"), ("inference_gendb", "cxx/inference.cc")],
     ["the references, entity clusters, relations and score after each transition; frequencies over many models"],
     note=NOTEL, tech=TV)
prop("C22", "The PClean program is reproducible and keeps to its inputs",
     "Running the PClean program twice with one seed writes the same clusters, samples and held-out likelihood. The "
     "clusters partition exactly the relations of the schema and the rows that have the values; held-out data have a "
     "probability; the requested number of samples is written, with a legal value for every field; bad arguments and "
     "missing files are refused.",
     ["inputs", "histories"], "all schemas, tables, held-out tables, seeds, iteration counts and options",
     "No test runs the program beyond an exit code; samples are counted in one schema.",
     ["cxx/pclean/pclean.cc", "cxx/pclean/pclean_lib.cc", "cxx/inference.cc"],
     [("main", "cxx/pclean/pclean.cc"), ("make_pclean_samples, make_dummy_encoding_from_gendb",
      "cxx/pclean/pclean_lib.cc")], ["the files the program writes and what it prints"], note=NOTE, tech=TV)
prop("C25", "The Python models follow the same laws as the C++ ones",
     "The Python IRM and HIRM seat entities, cluster data, move relations between views and score and predict by the "
     "same rules as the C++ ones: the seating, the clusters of data, the Gibbs weights, the scores and the predictive "
     "probabilities equal their closed forms after every operation, entities without data are unseated, and models "
     "written as dictionaries, JSON or text come back the same.",
     ["histories", "inputs"], "all schemas, Bernoulli data, and sequences of the Python API's operations, with "
     "serialisation anywhere in between",
     "There are four Python tests, on one data set, and none of them on the hierarchical model.",
     ["src/hirm.py", "src/util_io.py", "src/util_math.py"],
     [("CRP, Domain, Relation, IRM, HIRM, logp_observations", "src/hirm.py"),
      ("to_dict_*, from_dict_*, to_txt_*, from_txt_*", "src/util_io.py"), ("log_choices, log_linspace",
      "src/util_math.py")], ["the model's whole state after each operation; frequencies of its choices"], note=NOTEH,
     tech=TV)
prop("C27", "Plots show the saved clustering and the data",
     "The plotting tools read schemas, observations and saved clusterings as the programs do.  The page has, for every "
     "view in the file, a figure of its observed unary relations and one of each observed binary relation: every cell "
     "holds the value observed for the entities and relation that label it and nothing elsewhere, entities of one table "
     "stand together, and lines stand exactly between tables and domains.",
     ["inputs"], "all schemas the programs accept, numeric observations and clusterings, also without a schema if there "
     "is one domain",
     "Tests compare shapes of matrices and the order of entities in fixed examples; no test looks at a cell or a page.",
     ["py/hirm_io.py", "py/visualize.py", "py/make_plots.py"],
     [("load_schema, load_observations, load_clusters", "py/hirm_io.py"), ("make_plots and what it calls",
      "py/visualize.py"), ("main", "py/make_plots.py")], ["what the readers return; the page, and the figures in it"],
     note="Every generated input run through the real tools yields a page and figures that TLC accepts as those the "
     "specification requires; complete only for the inputs explored. Figures are read from matplotlib's objects.", tech=TV)
