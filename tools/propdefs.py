prop("C03", "The translated mesh is the input mesh",
     "Every grid point and element of the input appears exactly once in every translation, at the same place, of the same kind, joining the same points in an order that describes the same oriented element, and nothing else is added. Targets that keep identifiers keep them attached to the same points and elements, and elements that share a property in the input, and only they, share the group or block of that property in the output.",
     ["inputs", "configurations"],
     "for every combination of element kinds, numbering of points and elements, and output format",
     "The tests translate a few dozen fixed decks and mostly compare counts or file existence; node orders of quadratic elements, several kinds under one property and non-consecutive numbers are not compared against the input.",
     ["Abstract/Mesh.cpp", "Nastran/NastranParser_geometry.cpp", "Aster/MedWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"],
     [("node order tables between the Nastran, MED and Systus conventions", "Nastran/NastranParser_geometry.cpp, Systus/SystusWriter.cpp, Nastran/NastranWriter.cpp"), ("id to position maps", "Abstract/Mesh.cpp")],
     check="c_mesh")
prop("C05", "Each element keeps its section and material",
     "In every translation each element carries the cross-section, thickness, offset, ply stack, local axes and material constants that its property and material cards define, whatever other properties and materials the deck contains.",
     ["inputs", "configurations"],
     "for every combination of property kinds, materials, sharing and offsets up to the bound, and every output format that supports them",
     "The tests check that a handful of decks translate, and a few numbers in them; they never combine several properties, materials and offsets in one model, where definitions can be merged or exchanged.",
     ["Nastran/NastranParser.cpp", "Abstract/Element.cpp", "Abstract/Model.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp"],
     [("property parsing", "Nastran/NastranParser.cpp"), ("virtual materials, split of shells by offset", "Abstract/Model.cpp"), ("characteristics and material assignments", "Aster/AsterWriter.cpp, Systus/SystusWriter.cpp")],
     check="c_props")

prop("C06", "Each analysis carries exactly the loads it selects",
     "In every translation each analysis applies the loads of the load set it selects, and no other: forces and moments at points, pressures and forces on faces, line loads of bars, gravity and rotation, with the factors of load combinations applied once, loads on the same point, face or bar added together, in the directions and coordinate systems of the cards, whatever other sets, combinations and analyses the deck contains.",
     ["inputs", "configurations"],
     "for every set of load cards up to the bound, spread over load sets, combinations and subcases",
     "The tests contain about one load kind per deck; sums of several loads on the same entity, a set shared by a combination and a subcase, and the numeric effect of each card are not compared.",
     ["Nastran/NastranParser.cpp", "Abstract/Loading.cpp", "Abstract/Model.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp"],
     [("load parsing", "Nastran/NastranParser.cpp parseFORCE ... parseRFORCE"), ("expansion of combinations, clones", "Abstract/Model.cpp replaceCombinedLoadSets"), ("load output", "Aster/AsterWriter.cpp writeAffeCharMeca, Systus/SystusWriter.cpp fillLoadingsVectors")],
     check="c_loads")

prop("C07", "Each analysis fixes exactly the degrees of freedom it selects",
     "In every translation each analysis blocks or imposes the components that its constraint set, the sets added to it and the permanent constraints of the points say, at the values and in the displacement coordinate systems of the cards, each component once, and no other component that carries stiffness; enforced displacements of the load set supersede the blocked value in the analyses that select them and nowhere else.",
     ["inputs", "configurations"],
     "for every set of SPC, SPC1, SPCADD, SPCD and permanent constraints up to the bound, spread over constraint sets and subcases, on points with and without rotations and in local displacement systems",
     "The tests check one constraint set per deck; overlapping cards, two subcases with different sets, enforced values in one of them and local frames together are not compared.",
     ["Nastran/NastranParser.cpp", "Abstract/Constraint.cpp", "Abstract/Model.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp"],
     [("constraint parsing", "Nastran/NastranParser.cpp parseSPC, parseSPC1, parseSPCADD, parseSPCD"), ("redundant and superseded components, added degrees of freedom, local frames", "Abstract/Model.cpp removeRedundantSpcs, removeConstrainedImposed, generateDiscrets, emulateLocalDisplacement"), ("constraint output", "Aster/AsterWriter.cpp writeSPC, Systus/SystusWriter.cpp fillConstraintsVectors")],
     check="c_spc")

prop("C08", "Rigid bodies, averages and linear relations keep their meaning",
     "In every translation each analysis ties its points by exactly the relations that the rigid elements (RBE2, RBAR, RBAR1), the averages (RBE3) and the MPC set it selects define: the space of displacements they allow together with the blocked components is the same, averages keep their weights and components, relations of a set apply in the analyses that select it and in no other, and no relation is redundant, is lost, or refers to a component that does not exist.",
     ["inputs", "configurations"],
     "for every set of rigid bodies, averages and relations up to the bound, disjoint or sharing points, on points with or without elements, rotations and local displacement systems, in each way of writing rigid bodies",
     "The tests translate one rigid element or relation at a time and count constraints; rigid bodies that share points, bodies on points without rotations, relations in several subcases and the equations finally written are not compared.",
     ["Nastran/NastranParser.cpp", "Abstract/Constraint.cpp", "Abstract/Model.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp"],
     [("rigid element and relation parsing", "Nastran/NastranParser.cpp parseRBAR, parseRBAR1, parseRBE2, parseRBE3, parseMPC"), ("merging, replacement by relations or by special elements", "Abstract/Model.cpp replaceRigidSegments, makeCellsFromRBE, makeCellsFromLMPC"), ("output", "Aster/AsterWriter.cpp writeLIAISON_SOLIDE, writeLMPC, writeRBE3; Systus/SystusWriter.cpp generateRBEs")],
     check="c_rigid")
prop("C09", "Springs, dampers, masses and direct matrices keep their values",
     "In every translation the springs (CELAS1, CELAS2, CBUSH), dampers (CDAMP1), masses (CONM1, CONM2, CMASS2) and direct matrices (DMIG) of the input add up to the same stiffness, mass and damping matrices over the degrees of freedom of its points: each term on the points and components the input gives, in the frame it gives, whatever else shares its points, its property or its numbers; what a spring connects to the ground is held there, and nothing blocks a component that they act on.",
     ["inputs", "configurations"],
     "for every set of discrete elements up to the bound, in static, modal and frequency response analyses, on points with or without other elements, with several numberings",
     "The tests count element sets of one spring at a time; the assembled matrices, combinations that share properties, points or numbers, and frames are not compared with the input.",
     ["Nastran/NastranParser.cpp", "Nastran/NastranParser_geometry.cpp", "Abstract/Element.cpp", "Abstract/Model.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp"],
     [("parsing", "Nastran/NastranParser_geometry.cpp parseCELAS1, parseCELAS2, parseCDAMP1, parseCMASS2, parseCBUSH; Nastran/NastranParser.cpp parsePBUSH, parsePELAS, parsePDAMP, parseCONM1, parseCONM2, parseDMIG"), ("matrices", "Abstract/Element.cpp ScalarSpring, StructuralSegment, MatrixElement; Abstract/Model.cpp replaceDirectMatrices, splitElementsByDOFS"), ("output", "Aster/AsterWriter.cpp writeAffeCaraElem; Systus/SystusWriter.cpp fillMatrices, writeMasses")],
     check="c_discrete")
prop("C01", "A deck means the same however its cards are laid out",
     "The translation of a deck does not depend on how its cards are written: small, large, mixed or free fields, blank fields written or left out, with or without continuation markers and line ends, comments and blank lines between and inside cards, included files, lower and upper case names, text after ENDDATA, spacing and order of writing in the case control section all give the same output files and the same exit status.",
     ["inputs", "configurations"],
     "for every base deck in every layout of the whole deck, and every form of every card alone in every layout",
     "The tests read each card in the one layout its deck happens to use, mostly small fields without continuation markers; the fields of a card in another layout, or next to a card in another layout, are never compared.",
     ["Nastran/NastranTokenizer.cpp", "Nastran/NastranParser.cpp", "Abstract/Tokenizer.h"],
     [("splitting of lines into fields, continuations", "Nastran/NastranTokenizer.cpp splitNextLine, splitFixedFormat, splitFreeFormat, nextSymbol"), ("sections of the deck, includes", "Nastran/NastranParser.cpp parseExecutiveSection, parseBULKSection, parseINCLUDE")],
     check="c_format")
prop("C02", "A value means the same however it is spelled or left blank",
     "The translation of a deck does not depend on how its values are spelled: a real number written with or without exponent, exponent letter, leading zero, trailing zeros or sign is the same number; an integer with a plus sign is the same integer; a list of identifiers is the same set written out, as ranges, ranges with a step, or in another order; and a blank field is the same as the documented default of that field written out.",
     ["inputs", "configurations"],
     "for every real, integer and defaulted field of every form of every card, every spelling, and every set of identifiers among six consecutive ones in every way of writing the list",
     "The tests read the one spelling that each deck happens to use; a field read with the wrong default, a list that loses its last element or an exponent without letter shows only in other spellings of the same deck.",
     ["Nastran/NastranTokenizer.cpp", "Nastran/NastranParser.cpp", "Nastran/NastranParser_geometry.cpp"],
     [("conversion of fields to numbers, lists with THRU and BY", "Nastran/NastranTokenizer.cpp nextDouble, nextInt, nextInts, isNextInt, isNextDouble"), ("defaults", "Nastran/NastranParser.cpp, Nastran/NastranParser_geometry.cpp parse<CARD>")],
     check="c_number")
prop("C10", "A successful translation is complete and consistent in itself",
     "When the translation ends with success, every file it announces exists and can be loaded: in Code_Aster, every command and keyword exists, gets values of its type and concepts that are defined before, of the right kind, defined once and not yet destroyed, and names only groups, nodes and cells of the mesh file; in SYSTUS and Nastran every record refers only to points, elements, properties, materials, systems, tables, lists and sets that are written, each once; no value is infinite or undefined.",
     ["inputs", "configurations"],
     "for every set of model features up to the depth in every kind of analysis, and every deck of a corpus of all cards, in every output format with its options",
     "The tests check that each deck translates, and run no solver; a command that refers to a concept or group that another combination of features leaves out is only seen when that combination is loaded by the solver.",
     ["Aster/AsterWriter.cpp", "Aster/MedWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp", "Abstract/Model.cpp"],
     [("sequence of commands, names of concepts", "Aster/AsterWriter.cpp writeAnalyses, writeAnalysis, writeAssemblage, writeConstraints, writeLoadings"), ("identifiers, groups, lists, vectors and tables", "Systus/SystusWriter.cpp"), ("cards", "Nastran/NastranWriter.cpp")],
     check="c_command")
prop("C12", "Each subcase is one analysis with exactly the selections in force for it",
     "Every subcase of the input (or the whole case control when there is none) becomes exactly one analysis of the output, in order, of the kind its solution asks for, and that analysis uses exactly the selections in force: the constraint, load, method, frequency, damping and strategy sets named in the subcase itself, or else those named above, whatever spelling or options the commands are written with; requests for output, titles, comments and sets that only look like selections select nothing; nothing selected in one subcase leaks into another; a nonlinear subcase starts from the end of the previous one and moves from its loads to its own; a buckling subcase refers to the first static one; a SUBCOM combines the subcases before it with the coefficients of its SUBSEQ.",
     ["inputs", "histories"],
     "for every pattern of giving each selection above and in none to three subcases, in six solution sequences, changed together up to the depth, with every output request, spelling, subcase numbering and combination of the menu, in every format that supports the analysis",
     "A handful of test decks have several subcases, and they check that the translation succeeds; which set is in force in which subcase depends on the order and history of the commands of the whole case control section.",
     ["Nastran/NastranParser.cpp", "Abstract/Analysis.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"],
     [("selections in force", "NastranParser::parseExecutiveSection, parseSubcase, parseSubcom, addAnalysis: context"), ("analyses of the model", "Abstract/Analysis.cpp"), ("analyses written", "AsterWriter::writeAnalyses, SystusWriter::writeAllSubcases, NastranWriter::writeNastranFile")],
     check="c_case")
prop("C13", "A frequency response is excited, sampled, damped and reduced as the input asks",
     "For every modal or direct frequency response of the input, the analysis written for the solver is excited, at each excitation frequency, by the complex force that the input defines there (the areas, static loads and load sequences it names, times its table with that table's interpolation and extrapolation, its phase, and the factors of the combination that selects it, each excitation with its own and none with another's), is computed at exactly the excitation frequencies of the input, has its modal or global damping as a function of frequency and its dampers, enforces a displacement, velocity or acceleration where a load is said to be one, and uses the modes that the input asks for (number, band, normalisation). What the output format cannot express is announced by a message, never silently changed.",
     ["inputs", "configurations"],
     "for every way of giving each of eleven parts of a frequency response (card, excitation, combination, table, phase, delay, second table, frequencies, modal damping, global damping, modes), changed together up to the depth, in every format that supports it",
     "The tests translate a handful of frequency responses and cannot run the solver on the result; a scale factor that reaches a table shared with another excitation, or a load found only when its card comes first, needs a particular combination of cards and the value of the force to be seen.",
     ["Nastran/NastranParser.cpp", "Abstract/Loading.cpp", "Abstract/Value.cpp", "Abstract/Model.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Systus/SystusDat.cpp"],
     [("dynamic loads, tables, frequencies, damping", "NastranParser::parseRLOAD1, parseRLOAD2, parseDLOAD, parseDAREA, parseLSEQ, parseTABLED1, parseTABDMP1, parseFREQ*, parseEIGR*"), ("combination of load sets", "Model::replaceCombinedLoadSets, DynamicExcitation::scale"), ("writers", "AsterWriter::writeAnalysis, writeCalcFreq; SystusDat.cpp, SystusWriter::fillTables")],
     check="c_freq")
prop("C04", "Everything given in a coordinate system is placed and directed where it puts it",
     "Wherever the input gives a position, a blocked or imposed displacement, a force or a moment in a rectangular, cylindrical or spherical coordinate system, the output has it at the place and in the direction, in the global system, which the definition of that system gives: whatever chain of other systems it is itself defined in (by points or by nodes), at each node its own local directions for curvilinear systems, the defaults given once for all nodes included, and whatever the order of the cards and of the identifiers.",
     ["inputs"],
     "for every chain of coordinate systems up to the length (each of four kinds of definition, in every earlier system of the chain), every pair of uses of its last system, four orders of the cards and two of the identifiers, in every format that supports it",
     "The tests use a few systems defined in the global one, before their use; a wrong composition shows only with a system in a curvilinear one, at a point off its axes.",
     ["Abstract/CoordinateSystem.cpp", "Abstract/Mesh.cpp", "Abstract/Constraint.cpp", "Abstract/Loading.cpp", "Nastran/NastranParser_geometry.cpp", "Nastran/NastranParser.cpp", "Aster/MedWriter.cpp", "Systus/SystusWriter.cpp"],
     [("systems", "CoordinateSystem::positionToGlobal, vectorToGlobal, updateLocalBase, build, getEulerAnglesIntrinsicZYX"), ("parser", "NastranParser::parseCORD1R, parseCORD2R, parseCORD2C, parseCORD2S, parseGRID, parseGRDSET"), ("uses", "Mesh::findNode, SinglePointConstraint::emulateLocalDisplacementConstraint, NodalForce::localToGlobal, SystusWriter::fillVectors")],
     check="c_coord")

prop("C11", "A model written for NASTRAN means what the input meant",
     "The NASTRAN deck that is written (output format NASTRAN, both output dialects) describes, when read by the rules of NASTRAN, the same model as the input, up to the digits of its eight-character fields: the same points and elements with their numbers, sections, non structural masses, plies, materials, offsets and orientations, springs, dampers and masses, displacement coordinate systems, the same analyses, each with the same loads and the same space of displacements allowed by its constraints. What has no equivalent (direct matrices, frequency responses, shear factors of PBEAM) is said to be missing in a message or in the deck.",
     ["inputs", "configurations"],
     "for every set of element kinds, properties, loads, constraints, rigid elements and discrete elements up to the bound, in both dialects and several numberings",
     "The tests write a few decks for NASTRAN and check that the file exists; the deck that is written is never read back and compared with the one that was given.",
     ["Nastran/NastranWriter.cpp", "Nastran/NastranWriter.h", "Abstract/Model.cpp", "Abstract/ConfigurationParameters.cpp"],
     [("cells, properties and materials", "Nastran/NastranWriter.cpp writeCells, writeElements, writeMaterials"), ("constraints and loads, sets selected by each analysis", "Nastran/NastranWriter.cpp writeConstraints, writeLoadings, writeModel"), ("numbers in fields of eight characters", "Nastran/NastranWriter.cpp Line::add")],
     check="c_nastran")

prop("C14", "Success is reported only for complete output, whatever write fails",
     "Whenever an operation on an output file fails (it cannot be created, the disk is full at once or from some point on, an I/O error, a partial write, an interruption, an error when the file is closed), or the process that writes is killed, the command ends with a non-zero status, or every output file is complete and the same as without the fault. It never ends by success with a file missing or truncated, and it never crashes. After a killed run, the same command run again in the same folder gives the same files as a first run.",
     ["crash_points", "fault_sequences"],
     "for every operation on an output file (open, write, pwrite, writev, close) of the translation of each deck of the menu to each format with each option, failing in each of the ways",
     "No test makes a write fail; there are as many points of failure as operations, and a stream whose state is not looked at after its last write hides them all.",
     ["Aster/AsterWriter.cpp", "Aster/MedWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp", "Abstract/SolverInterfaces.cpp", "Commandline/VegaCommandLine.cpp", "Commandline/vegamain.cpp"],
     [("files written", "AsterWriter::writeModel, MedWriter::writeMED, SystusWriter::writeModel, writeMatrixFiles, NastranWriter::writeModel, Writer::closeFile"), ("exit status", "VegaCommandLine::process, vegamain.cpp main")],
     check="c_fault", level="fault_enumeration", tech="exhaustive fault and crash-point enumeration on the real program: every operation on output files fails in every way, under an interposed C library")

prop("C15", "The order of the bulk cards changes nothing",
     "A deck whose bulk cards are given in another order describes the same model: elements may come before or after their nodes, properties, materials and coordinate systems, loads and constraints before or after the elements and nodes they act on, set combinations before or after the sets. The translation means the same in all the orders: same mesh, properties, loads, constraints, discrete values, subcases and frequency responses as the independent reading of the deck.",
     ["inputs"],
     "for every model of depth one of the menus of the other properties, in every order of the menu of orders (reversed, sorted by card name upwards and downwards, dealt one of each kind at a time, every kind of card first, every kind last; thorough: depth two, every ordered pair of kinds first)",
     "The test decks come from a few preprocessors that always write the cards in the same order; a card that looks for what has not been read yet fails only in the other orders.",
     ["Nastran/NastranParser.cpp", "Nastran/NastranParser_geometry.cpp", "Nastran/NastranTokenizer.cpp", "Abstract/Mesh.cpp", "Abstract/Model.cpp"],
     [("cards, those that name elements", "NastranParser::parseBULKSection, parseCardsOnElements"), ("references resolved late", "Mesh::findOrReserveNode, findOrReserveCoordinateSystem; Model::find, Model::finish; Reference<>")],
     check="c_order")

prop("C16", "The output is a function of the input and the options alone",
     "The same deck with the same options gives the same files, byte for byte but for the date and the name of the input in a comment, whatever the addresses and the initial content of the memory, the environment variables and locale, the files already present in the output folder (those of an earlier translation of another deck included), the way of naming the input, the output folder, and the verbosity.",
     ["histories", "configurations", "inputs"],
     "for every deck of the menu in every format and option: in every world of the menu (order of addresses ascending, descending or alternating; fresh memory and stack filled with each of several patterns; environment; old files; names; verbosity), and after every other deck of a list in the same folder",
     "A test run always has the same allocator, environment and empty folder; containers ordered by address and values read before they are set give the expected output there, and another one elsewhere.",
     ["Abstract/Model.cpp", "Abstract/Mesh.cpp", "Abstract/Reference.h", "Aster/AsterWriter.cpp", "Aster/MedWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp", "Commandline/VegaCommandLine.cpp"],
     [("containers and their order", "Model::Container, Model::finish; map and set of shared pointers"), ("files opened and named", "AsterWriter::writeModel, SystusWriter::writeModel, NastranWriter::writeModel, VegaCommandLine::readCommandLineParameters")],
     check="c_same")

prop("C17", "Exactly what is not understood is left out, and strict refuses it",
     "A card, a command or a field which the translation does not understand is announced, and nothing else is lost: in the modes that go on, the output is that of the deck without that card or command (or, where a card is understood in spite of a field, that of the deck with the card), wherever it stands and however it is laid out, with its continuations; no half of it is left behind. In strict mode the translation ends with an error and writes nothing. The translation never crashes on it.",
     ["inputs", "configurations"],
     "for unknown cards in every layout at every position of each base deck, unknown commands at every place of the case control, and for one more card of every kind of a list of eighty-four, with each of its fields spoilt in each way, cut short, emptied or too long, in each mode and format",
     "The tests never spoil a card; a parser that has added half of a card before it finds the bad field leaves that half in the model, and one that loses its place in a continuation takes the next card with it.",
     ["Nastran/NastranParser.cpp", "Nastran/NastranParser_geometry.cpp", "Nastran/NastranTokenizer.cpp", "Abstract/SolverInterfaces.cpp", "Commandline/VegaCommandLine.cpp"],
     [("dismissing a card", "NastranParser::parseBULKSection, Parser::handleParsingWarning, handleParsingError; NastranTokenizer::nextSymbolType, readLineAndSkipToNotIgnored"), ("modes", "ConfigurationParameters::TranslationMode; VegaCommandLine::readCommandLineParameters, convertStudy")],
     check="c_skip")

prop("C18", "The command does what its line and file say; its exit status tells the outcome",
     "Every option does the same on the command line and in the configuration file, in every form, and the line wins over the file; --listOptions shows the options in effect. A mistake in the line or in the configuration file ends with the documented exit code of that mistake (no input 2, output folder 3, invalid command 4, deck not understood 6), never with a crash or a success, and nothing is translated. Files are written only in the output folder, and the input and the files of other studies are left as they were. A solver is run when asked, only after a translation that succeeds, once, in the output folder, on the files written; its end decides the exit status (100 to 105), and results left by an earlier run never count as its own.",
     ["configurations", "histories", "inputs"],
     "for every command line at most two departures (options and values on the line and in the file, forms, inputs, folders, formats, test files, mistakes) away from the plain one, every pair of modes, and every end of each solver (exit status, signals) with every result it may leave and every file an earlier run may have left (thorough: all pairs of departures)",
     "The tests call the functions below the command with fixed arguments, and have no solver to run; what two options do together, or what an old result file does to the next run, is never tried.",
     ["Commandline/VegaCommandLine.cpp", "Commandline/vegamain.cpp", "Abstract/ConfigurationParameters.cpp", "Abstract/SolverInterfaces.cpp", "Aster/AsterRunner.cpp", "Systus/SystusRunner.cpp", "Nastran/NastranRunner.cpp"],
     [("command line and configuration file", "VegaCommandLine::process, readCommandLineParameters, convertStudy"), ("runs of solvers", "VegaCommandLine::runSolver, AsterRunner::execSolver, SystusRunner::execSolver, NastranRunner::execSolver"), ("exit status", "vegamain.cpp main, VegaCommandLine::ExitCode")],
     check="c_cli")

prop("C19", "Results given with a model become the tests that they are",
     "With a file of results (-t), the output tests each displacement, complex displacement, eigenvalue (frequency, generalised mass and stiffness; critical load in buckling) and von Mises stress of the file, in the analysis (subcase) it is printed for, at the same point and component, at its load step, time or frequency, with the same value (turned to the global system when the point has a displacement system, from magnitude and phase when so printed) and the tolerance asked for; and it tests nothing else: forces, loads, other tables, headers, components that points do not have, subcases that the model does not have give no test. The layout of the pages (breaks within a table, titles, subtitles, line ends) and of a table of comma separated values (columns, their order, comments, quotes) do not matter.",
     ["inputs", "histories", "configurations"],
     "for every sequence of at most two (thorough: three) result sections over at most two subcases, with page breaks, for static, nonlinear step, modal, buckling, direct and modal frequency results, every title width that can be taken for a row, displacement systems, numberings and tolerances; every choice and order of at most three (four) columns of a table",
     "The tests read a few recorded files and count tests; which page, title or order of sections moves a test to another analysis, point or value is not tried.",
     ["ResultReaders/F06Parser.cpp", "ResultReaders/CSVResultReader.cpp", "ResultReaders/ResultReadersFacade.cpp", "Abstract/Objective.cpp", "Abstract/Model.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp"],
     [("reading of results", "F06Parser::add_assertions, read*Section; CsvGrammar::convertFunc"), ("tests of components that exist", "Model::removeAssertionsMissingDOFS"), ("tests in the output", "AsterWriter::write*Assertion, SystusWriter::write*Assertion")],
     check="c_tests")

prop("C20", "An OptiStruct deck means what its cards say",
     "A deck read with the OptiStruct dialect gives the same outputs as with the Nastran dialect where both know its cards. Without SOL (or with SOL 200) each subcase is the analysis that its ANALYSIS, or else its selections, say: linear static, modal, buckling, direct or modal frequency response, with the loads, supports, eigenvalue methods, frequencies and damping that it selects or that stand above the subcases. Cards of design, optimisation and reports change nothing. A SET of grids or elements is the group of those listed, THRU ranges included. CONTACT joins the faces which its two SURF say, each face told by the element and by grid points on (or opposite to) it; in Systus each point of the slave surface is joined to the face of the master surface which is nearest.",
     ["inputs", "configurations"],
     "for every sequence of at most two (thorough: three) kinds of analysis, spelling of ANALYSIS and place of it; every ignored card, layout and place; every pair of ways to write a set of grids or elements; every face of every kind of element, in every way to tell it, as master and as slave, and every pair of kinds in one surface",
     "The tests translate a few decks and run the solver when there is one; which faces and subcases come out is not looked at, beyond counts.",
     ["Optistruct/OptistructParser.cpp", "Nastran/NastranParser.cpp", "Abstract/Target.cpp", "Abstract/Constraint.cpp", "Abstract/MeshComponents.cpp"],
     [("OptiStruct cards", "OptistructParser::parseSET, parseSURF, parseCONTACT"), ("kind of analysis of a subcase", "NastranParser::autoSubcaseAnalysis, addAnalysis"), ("faces and contacts", "Cell::faceids_from_two_nodes, BoundaryElementFace::createSkin, SurfaceSlide::makeCellsFromSurfaceSlide")],
     check="c_opti")

prop("C21", "A nonlinear analysis keeps the behaviour of each material and element",
     "In a nonlinear static analysis (SOL 106) translated to Code_Aster each element has one behaviour, that of its own material and kind: von Mises plasticity with the yield stress and the hardening slope of MATS1 (the slope along the total strain is E H / (E + H); without H the material is perfectly plastic), hyperelasticity with the constants of MATHP (the bulk modulus is twice D1) in large rotations, and elasticity otherwise; with PARAM LGDISP 1 or 2 bars, beams and rods become elements of large rotations, with LGDISP -1 or without it they do not. The constants of the elastic part stay those of MAT1. This does not depend on the order of the cards, on the sharing of a material, nor on the number of subcases.",
     ["inputs", "configurations"],
     "for every sequence of at most two (thorough: three) elements of ten kinds, each with one of ten materials, sharing it or not, under each value of LGDISP, each order of cards and one or two subcases",
     "A few nonlinear decks are translated by the tests and only the solver, absent here, would tell whether their materials are right.",
     ["Nastran/NastranParser.cpp", "Aster/AsterWriter.cpp", "Abstract/Material.cpp", "Abstract/Model.cpp"],
     [("nonlinear materials", "NastranParser::parseMATS1, parseMATHP"), ("behaviours", "AsterWriter::writeAnalysis, writeMaterials"), ("elements of large rotations", "Model::needsLargeDisplacements, AsterWriter::writeAffeModele")],
     check="c_nonlin")
