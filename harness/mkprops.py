import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["sudokutools/"+f for f in files],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where="sudokutools/"+b) for a,b in mech],
        observe_at=observe,hook_needed=None)))

p("C01","The grid geometry is right for every box shape",
 "For every box width and height, the rows, columns and boxes each split the grid into as many groups of that many fields as there are numbers, the box index of a field names the one box listing that field, and the part lists take one field per box. The surroundings of a field are exactly the fields sharing its row, column or box, each once, with or without the field itself as requested. The coordinate functions and the methods of a board give the same answer, and an out-of-range row, column, box or part number is rejected with ValueError.",
 ["inputs","configurations"],"every box width and height (including non-square and 1-wide ones), every field, every unit number, include or not",
 "Tests check two or three box shapes against tables and lengths; non-square shapes, agreement of the two implementations and exact peer sets stay unchecked.",
 ["coordinates.py","sudoku.py"],
 [("box_at/box_of/row_of/column_of/surrounding_of","coordinates.py"),("the_box/the_column/the_part/the_row","coordinates.py"),("Sudoku.box_at/box_of/row_of/column_of/surrounding_of","sudoku.py")],
 ["return values of the public coordinate functions and Sudoku methods"])
p("C02","A board stores exactly what was written to it",
 "After any sequence of writes to numbers and candidates, reading a field of a board returns the last value written to that field (minus any candidates removed since), a write never changes any other field or any other board, and a number and the candidates of the same field are independent. A new board has no numbers and no candidates. Iteration, the empty and filled fields, the filled count and the total size always agree with the stored numbers, in row-by-row order. A board tells its shape and numbers, and access to a row or column beyond its end is rejected (for numbers with IndexError) and changes nothing.",
 ["histories","configurations"],"every history of operations on any number of boards of any box shape",
 "Tests write one or two fields of one board; aliasing between rows, fields, boards or copies only shows after longer histories.",
 ["sudoku.py"],[("Sudoku.__init__/__getitem__/__setitem__/get_candidates/set_candidates/remove_candidates/empty/filled/count/__len__/__iter__","sudoku.py")],
 ["public reads of every board after every operation"],[("numbers","number of each field, 0 = empty","sudoku.py Sudoku"),("candidates","set of candidates of each field","sudoku.py Sudoku")])
p("C03","Copies are faithful and independent; comparing boards is field by field",
 "A copy has the shape and numbers of its source, has the source's candidates exactly when they are asked for and none otherwise, and afterwards the two boards never influence each other. Boards are equal exactly when they are of the same size and every field holds the same number, whatever the candidates; a board equals anything else exactly when that gives the same number for every field, and nothing of another kind; the difference of two boards of one size lists exactly the fields whose numbers differ; and the strict comparison additionally compares candidates when asked. Comparing, copying and reading never change a board.",
 ["histories","inputs","configurations"],"every pair of boards, every history of copies and later writes, with and without candidates",
 "Tests compare two fixed boards and never write to a copy or to the source of a copy with candidates.",
 ["sudoku.py"],[("Sudoku.copy/__eq__/diff/equals","sudoku.py")],["public reads of both boards, results of ==, diff(), equals()"])
p("C04","A board written as text reads back unchanged",
 "For every board, encoding it as text and decoding that text with the matching separators and the board's box shape gives a board with the same shape, the same numbers and, if candidates were included, the same candidates; the text itself lists the numbers row by row with the given separators and, if asked for, after a bar the sorted candidates of each field. This holds for every box shape, for row and column separators that are whitespace or another character, and for numbers above 9 as long as a column separator is used. Encoding never changes the board.",
 ["inputs","configurations"],"every board (any numbers, any candidate sets including empty ones), every box shape, every supported separator choice",
 "Tests encode one 9x9 board without candidates and never decode what encode produced with separators or candidates.",
 ["sudoku.py"],[("Sudoku.encode","sudoku.py"),("Sudoku.decode","sudoku.py")],["decode(encode(board))","the encoded text"])
p("C05","Board text is parsed as documented",
 "Reading a board from text assigns the numbers to the fields row by row, treats the chosen empty character as an empty field, ignores layout whitespace, and gives the first fields the listed candidate sets in order, leaving the rest without candidates. Without an explicit box shape it is derived from the number of fields: square boxes when possible, otherwise the smallest width that divides the row length; a field count that does not form such a grid is rejected with ValueError, as is a character that is not a number. An explicit box shape is always honoured.",
 ["inputs","configurations"],"every text built from numbers, empty characters, separators, whitespace layout and candidate lists; every grid size",
 "Tests decode a handful of texts, only for square boxes or 2x3, with the default empty character.",
 ["sudoku.py"],[("Sudoku.decode","sudoku.py")],["decode() result or exception"])
p("C06","The printed board shows every field at its place",
 "The printed form of a board shows, for every box shape and state, every number in its own field, and for an empty field the marked candidates in ascending order when candidates are requested and blanks otherwise. All fields have the same width (wide enough for the longest entry), aligned right or left as requested, with bars between boxes and a rule of the same width as the lines between box rows. The candidate separator and prefix given by the caller are used; without a separator a comma is used exactly when numbers exceed 9.",
 ["inputs","configurations"],"every board, box shape, candidate assignment and choice of alignment, prefix and separator",
 "Tests print four fixed boards; no non-square layout without candidates, no alignment/prefix combinations, no 1-wide boxes.",
 ["sudoku.py"],[("view","sudoku.py"),("Sudoku.__str__","sudoku.py")],["the returned text"])
p("C07","Calculated candidates are exactly the numbers not used around a field",
 "The calculated candidates of an empty field are exactly the numbers occurring in no field of its row, column or box, and those of a filled field are its own number alone, whatever candidates are stored. Initialising candidates gives every field exactly these sets, or, when restricted to filled fields, only the filled ones and leaves the others as they were; calculating missing candidates as a solving step gives them to the fields without any and leaves the others as they were; numbers never change.",
 ["inputs","configurations"],"every board (conflicting ones included), every box shape, every prior candidate state",
 "Tests use one 9x9 example; other shapes, stale candidates and conflicting boards are not covered.",
 ["solve.py"],[("calc_candidates/init_candidates","solve.py")],["return values and stored candidates"])
p("C08","Both exhaustive solvers yield exactly the solutions, each once",
 "For every board, the brute-force solver and the exact-cover solver each yield every complete conflict-free grid that agrees with the given numbers, each exactly once, and nothing else; in particular they yield nothing for a conflicting or unsolvable board and the board itself for a solved one. The given board (numbers and candidates) is never changed and every yielded board is independent of the others and of the input.",
 ["inputs","configurations"],"every board with numbers in range: unique, ambiguous, unsolvable, conflicting, empty and complete ones, every box shape",
 "Tests count solutions of four uniquely solvable boards and check only that two solutions of one ambiguous board differ; completeness and no-duplicates for ambiguous boards and non-square shapes are open.",
 ["solve.py","dlx.py"],[("bruteforce/_do_bruteforce","solve.py"),("dlx","solve.py"),("do_dlx/select/deselect/solve","dlx.py")],["the yielded boards","the input board afterwards"])
p("C09","The verdicts on conflicts, completeness and uniqueness are right",
 "The conflict search reports exactly the ordered pairs of fields that share a row, column or box and hold the same number, with that number, restricted to the fields asked for. A board counts as solved exactly when it is full and free of conflicts, and as unique exactly when it has exactly one solution. None of these checks changes the board.",
 ["inputs","configurations"],"every board with numbers in range, every box shape, every selection of fields",
 "Tests look at one conflict in one board and at four unique boards and one ambiguous board.",
 ["analyze.py"],[("find_conflicts/is_solved/is_unique","analyze.py")],["return values"])
p("C10","No solving technique ever loses a solution",
 "If a board's candidates still contain a solution, then no step of any logical technique, applied on its own or while the technique goes on searching, removes a number of that solution from the candidates or writes a different number. This holds for every solution still contained in the candidates. Brute-force steps taken together keep one solution.",
 ["inputs","histories","configurations"],"every solvable board of every shape, every candidate state still containing a solution, every technique and every interleaving of finding and applying steps",
 "Tests compare the first step of each technique on one board and the final result on uniquely solvable boards with brute force as a fallback.",
 ["solvers.py"],[("find/apply/apply_all of every technique","solvers.py")],["candidates and numbers before and after a step","apply_all()"])
p("C11","Each technique reports all its patterns and only genuine ones",
 "On every board with candidates, a technique reports a step exactly where its documented pattern is present and would change something: a field with one candidate, a candidate possible in only one field of a unit, n fields of a unit sharing at most n candidates, n numbers confined to n fields of a unit, a candidate confined to the intersection of a box and a line, and n lines whose positions for a candidate lie in n crossing lines. The reported fields and values are those of the pattern, the affected fields are exactly those that would change, and no step is reported twice. Searching never changes the board.",
 ["inputs","configurations"],"every board with candidates, every box shape, every technique and tuple size",
 "Tests compare one example per technique; completeness, other sizes, and the affected lists of most patterns are unchecked.",
 ["solvers.py"],[("find() of every technique","solvers.py")],["clues, affected and values of the steps yielded by find()"])
p("C12","Applying a step changes exactly what it announces",
 "Applying a step that writes a number sets that field's number, makes the number its only candidate and removes it from the candidates of all surrounding fields. Applying an elimination step removes only the announced values (or, for hidden tuples, all other values) from the affected fields, each of which really changes; a candidate calculation sets exactly the announced candidates. Nothing else on the board changes. A step does this on whichever board it is applied to, and however often it has been applied before.",
 ["inputs","configurations"],"every step found on every board with candidates, applied to that or to another board, every box shape",
 "Tests never look at the board after applying a single elimination step.",
 ["solvers.py"],[("build_actions/apply of every step class","solvers.py")],["the whole board before and after apply()"])
p("C13","Solving returns a solution, leaves the puzzle alone and always ends",
 "For every solvable puzzle the step-by-step solver returns a complete conflict-free grid that keeps all given numbers (the solution, if there is only one). It never changes the puzzle passed in, whatever candidates that puzzle carries. It also terminates on puzzles that have no solution, returning a board that keeps the given numbers.",
 ["inputs","configurations"],"every board with numbers in range: unique, ambiguous, unsolvable and conflicting, with or without stored candidates, every box shape",
 "No test calls the step-by-step solver directly; it is only reached through rating a few uniquely solvable boards.",
 ["solvers.py"],[("solve","solvers.py")],["the returned board","the input board afterwards"])
p("C14","The steps reported while solving replay to the result, simplest first",
 "Every step the solver takes is reported once, in order and before it takes effect: applying the reported steps one after another to the puzzle passes only through states in which the next step is a genuine instance of its technique, and ends in the returned board. The solver moves to a harder technique only when no simpler one applies, and guesses only when no logical technique applies.",
 ["histories","inputs"],"every solving run on every puzzle, step by step",
 "No test looks at the sequence of reported steps.",
 ["solvers.py"],[("solve/SOLVERS","solvers.py")],["the sequence of steps passed to the report callback","the returned board"])
p("C15","Hints are all the steps available now, simplest technique first",
 "The hints for a board are exactly the steps that the logical techniques find on it in its current state, each once and ordered from the simplest to the hardest technique. Brute force is never used as a hint and asking for hints never changes the board.",
 ["inputs","configurations"],"every board with or without candidates, every box shape",
 "No test covers hints.",
 ["solvers.py"],[("hints","solvers.py")],["the yielded steps","the board afterwards"])
p("C16","Rating and score follow from the techniques needed",
 "The rating of a puzzle is the difficulty weight of the hardest technique used when solving it step by step, and the score is the sum of the weights of all steps, with weights 0 for calculating candidates, 1 for singles, 2 for pairs and triples, 3 for quads and quints, 4 for pointing pairs and triples, 5, 6 and 7 for X-wing, swordfish and jellyfish and 10 for brute force. A rating is always between 0 and 10; for a solvable puzzle it is 0 exactly when the puzzle is already complete. Rating and scoring do not change the puzzle.",
 ["inputs","configurations"],"every puzzle, every box shape",
 "Tests only check ranges on random boards and 0 on complete ones.",
 ["analyze.py","solvers.py"],[("rate/score/RATINGS","analyze.py")],["rate()","score()"])
p("C17","Generated puzzles and grids are correct",
 "Every generated puzzle has exactly one solution and no conflicts, and when no minimum number of filled fields is requested it is irreducible: emptying any further field (or group of fields related by the requested symmetry) would lose uniqueness. Every created solution grid is full and free of conflicts. This holds for every random choice and box shape.",
 ["inputs","configurations"],"every random seed, box shape, symmetry and minimum",
 "Tests generate one puzzle per size, never with a symmetry, never checking irreducibility, and check uniqueness with the very function the generator uses.",
 ["generate.py"],[("generate","generate.py"),("create_solution","generate.py")],["the generated board"])
p("C18","Generated puzzles honour the requested size, minimum and symmetry",
 "A generated puzzle has the requested box shape, at least the requested number of filled fields, and a pattern of filled fields that is mapped onto itself by the requested symmetry (quarter or half turn, mirrored upside down, left-right, or both). A minimum above the number of fields or an unknown symmetry is rejected with ValueError; a minimum equal to the number of fields gives a full grid.",
 ["inputs","configurations"],"every random seed, every symmetry, every minimum from below zero to the number of fields, every box shape",
 "No test generates with a symmetry; the minimum is tested at one value per size.",
 ["generate.py"],[("generate/SYMMETRY","generate.py")],["pattern of the generated board or exception"])
p("C19","Puzzles from templates match the template",
 "A puzzle generated from a template has the template's box shape, is filled exactly where the template is filled, and has exactly one solution. If no such puzzle is found within the allowed tries a RuntimeError is raised instead of returning anything, and the template is never changed.",
 ["inputs","configurations"],"every template, number of tries and random seed",
 "Tests check the pattern of two templates, never uniqueness, and two failing calls.",
 ["generate.py"],[("generate_from_template","generate.py")],["the generated board or exception"])
p("C20","Coordinate notation round-trips",
 "Writing any non-empty set of fields in coordinate notation, for any box shape, with row/column or box/part notation or the automatic choice, and reading it back with the same separators gives exactly the same fields. The text depends only on the set of fields, is sorted and groups lines with equal contents; the automatic choice takes the shorter of the two notations. Fields outside the grid and non-positive or fractional box dimensions are rejected with ValueError.",
 ["inputs","configurations"],"every set of fields, box shape (numbers above 9 included), notation and separators",
 "Tests encode a few hand-picked sets and never decode what encode produced for more than two fields.",
 ["notation.py","coordinates.py"],[("encode/_join_keys/_dict_to_str","notation.py"),("decode","notation.py")],["encode() text","decode(encode())"])
p("C21","Coordinate notation means what it says",
 "A coordinate expression denotes, for every comma separated group, the fields lying in one of the listed rows and one of the listed columns and one of the listed boxes and one of the listed parts (an axis that is not mentioned does not restrict), and the whole expression denotes the union of its groups, in sorted order without repetition. Text that is empty, uses an axis twice in a group, names an axis without numbers, uses an illegal character or a number outside the grid is rejected with ValueError.",
 ["inputs","configurations"],"every expression over rows, columns, boxes and parts, well-formed or malformed, every box shape",
 "Tests decode single fields and single units only; mixed axes such as b1r1 and malformed texts are untested.",
 ["notation.py","coordinates.py"],[("decode/_decode_single","notation.py"),("the_row/the_column/the_box/the_part","coordinates.py")],["decode() result or exception"])
p("C22","Moves round-trip as text and do what they say",
 "Writing a move (setting a number, or removing candidates, at some fields) as text and reading it back gives the same move, in both accepted spellings of removals. Performing a set move writes the number and makes it the only candidate in exactly the named fields; performing a removal removes exactly the named candidates from exactly the named fields; nothing else changes. Text that is no move is rejected with ValueError.",
 ["inputs","histories"],"every set of fields, number and set of candidates (numbers up to 9), every box shape up to 9 numbers, any board",
 "No test covers moves as text or performing them.",
 ["notation.py","actions.py"],[("encode_action/decode_action","notation.py"),("SetNumber/RemoveCandidates","actions.py")],["move text","fields, number and candidates of the decoded move","board after performing"])
p("C23","The command shell behaves as a board with a stack",
 "For every sequence of commands, the current board, the stack and the printed results are those of a simple machine: creating, decoding and solving replace the current board; set, remove and initialise change only the named content of the current board; get, encode, print, view, help and stack print without changing anything, the help of a command naming the arguments it takes; push saves an independent copy including candidates; pop takes the last saved (or the one at the given position) and makes it current. Solving gives a solution that keeps the numbers of the current board.",
 ["histories"],"every sequence of valid commands with every argument style (positional or named)",
 "Tests check only that no error is reported for twenty short lines; the state and the output are never inspected.",
 ["shell.py"],[("Shell.execute/execute_line/parse","shell.py"),("COMMANDS and the stack commands","shell.py")],["output, current board and stack after each command"],[("sudoku","current board","shell.py Shell"),("stack","saved boards","shell.py Shell")])
p("C24","A failing shell command changes nothing and is reported",
 "A command that is unknown, malformed, has wrong arguments or fails reports an error on the error stream and leaves the current board, the stack and a loop being defined as they were. An interactive shell then carries on with the next command; a non-interactive one stops with exit status 1 without executing anything further. Valid commands never report an error.",
 ["histories","fault_sequences"],"every sequence mixing valid and invalid commands, interactive or not, at every position",
 "Tests replace the error reporting by a flag, so neither state preservation nor stopping is observed.",
 ["shell.py"],[("Shell.error/execute/execute_line/parse","shell.py")],["error stream, exit status, board and stack after each command"])
p("C25","Shell loops and scripts run exactly the written commands",
 "A loop executes its commands in order exactly the given number of times when it is ended, nothing while it is being defined, sees the board and stack of the moment of execution, and is gone afterwards; nested definitions and a missing or non-positive count are errors and exit works immediately, skipping the rest of its line. Comments, blank lines, indentation, line continuations and semicolons do not change what is executed. The same commands give the same output from a file, from standard input and from the command line option, which is ignored beside a file; a file that cannot be read is reported with exit status 1.",
 ["histories","programs"],"every script built from commands, loops and layout, on every input channel",
 "Tests run two one-line loops without looking at the result; reading scripts, comments, continuations and the command line are untested.",
 ["shell.py","__main__.py"],[("Shell.loop_command/execute_line/run","shell.py"),("main","__main__.py")],["output, exit status and final state"])
p("C26","Undo and redo in the game shell walk the exact history of boards",
 "In the game shell, undo returns to exactly the previous board (numbers and candidates) and redo to exactly the board undone, any number of times, stopping with a message at either end. A move that changes the board becomes the newest entry and discards what had been undone; a command that does not change the board leaves the history alone. Earlier boards in the history are never altered by later moves.",
 ["histories"],"every sequence of moves, undos, redos, queries and invalid inputs",
 "The game shell has no tests at all.",
 ["shell.py"],[("GameShell.run","shell.py")],["the board printed after each input"],[("history","boards visited and the current position","shell.py GameShell")])
p("C27","Game moves, automatic candidates, checks and hints are right",
 "A new game starts from a uniquely solvable puzzle with calculated candidates and tells its rating. The settings are listed with their values. A move applies the entered action and then, as long as the automatic settings ask for it, removes every set number from the candidates of its surroundings and fills fields with one remaining candidate; anything that is not a move or command is reported and changes nothing. The check lists exactly the filled fields that differ from the solution, the conflict list names every conflicting pair once, and hints are steps valid for the board as it is now.",
 ["histories"],"every game: any puzzle, any sequence of moves, settings and queries",
 "The game shell has no tests at all.",
 ["shell.py","actions.py","notation.py"],[("GameShell.run/new_sudoku/autofill","shell.py")],["printed board and messages after each input"])
p("C28","Ctrl-C ends what the shell is doing and nothing else",
 "When the user interrupts an interactive command shell that waits for input, the beginning of a continued line is dropped and the shell goes on; when it is interrupted while commands run, the rest of the line (or of the running loop, which is then gone) is dropped. Commands before the interrupted one have taken full effect, the interrupted one has taken effect, none, or for candidates a part of it, and nothing of the dropped text is ever run later: the shell then behaves like one that was given only the commands which took effect. A shell that is not interactive ends with exit status 2 in both cases.",
 ["histories","fault_sequences"],"every history of lines, interrupted at any prompt, any result being written and any point of the work of a command",
 "No test interrupts the shell; what is left behind only shows with the lines typed after an interrupt.",
 ["shell.py"],[("Shell.run/execute_line/loop_command","shell.py")],["output, board, stack and exit status after each line and interrupt"],
 [("lines","pending text of a continued line","shell.py Shell.run"),("loop","loop being defined or run","shell.py Shell")])
p("C29","Searches under way disturb neither boards nor each other",
 "Any number of searches (both exhaustive solvers, the search of each technique, hints, conflicts, iteration) and a step-by-step solver reporting its steps can be under way on the same or on different boards, be advanced in any order, left unfinished or thrown away: each gives exactly what it gives when run alone, and at no moment any board is different. Once an exhaustive search gave its first solution, later changes of the puzzle do not matter to it, and changing a board it gave does not matter to anything else. Questions asked in between (uniqueness, rating, text, copies) have the same answers as otherwise, and a found step may be applied to any number of boards.",
 ["schedules","histories"],"every interleaving of any number of searches, questions, writes to boards and to results",
 "Tests run one search after the other to its end; shared state only shows when searches are interleaved or abandoned.",
 ["solve.py","dlx.py","solvers.py","analyze.py","sudoku.py"],[("bruteforce/dlx","solve.py"),("do_dlx/select/deselect","dlx.py"),("SolveStep.find of each technique, hints, solve","solvers.py"),("find_conflicts","analyze.py")],["results of each search and all boards after each operation"])
p("C30","Solving steps are values: order, text and changes",
 "A solving step built from the same technique, clue fields, affected fields and numbers is equal to any other such step and prints the same, however these were listed (any order, any kind of iterable). Its text names the technique, the fields and the numbers; its representation, evaluated, gives an equal step. The steps of one technique are totally ordered by clues, affected fields and numbers, all six comparisons agreeing, so that sorting them does not depend on the order in which they were found. The changes listed by a step, each setting a number or setting or removing candidates of one field, carried out one after the other are exactly what applying it does; listing them changes nothing and applying a step again changes nothing more.",
 ["inputs"],"every step of every technique, found on any board or built by hand, and every pair of steps of one technique",
 "Tests build and compare no steps apart from one representation; wrong order or inequality only shows with steps listed differently.",
 ["solvers.py"],[("SolveStep.__init__/__eq__/__lt__/__repr__/__str__/apply","solvers.py"),("Action, build_actions of each technique","solvers.py")],["comparison results, texts, step.actions and the board after each change"])
p("C31","The interactive shell talks as a shell should",
 "An interactive command shell introduces itself with its name, version and the way to get help, asks for every line with a prompt which shows the number of the loop while one is being defined, and otherwise writes nothing but the results of commands, errors going to the error stream; it goes on after errors until exit or the end of the input and ends with status 0. A shell reading a script shows neither introduction nor prompt. Unless told otherwise a shell is interactive exactly when its input is a terminal.",
 ["histories","configurations"],"every sequence of lines (commands, errors, loops, continuations, comments), interactive or not, on terminals and other inputs",
 "No test runs the shell interactively or looks at prompts.",
 ["shell.py","__main__.py"],[("Shell.run/prompt","shell.py"),("main","__main__.py")],["everything written to both streams, line by line, and the exit status"],
 [("loop","number of the loop being defined, shown by the prompt","shell.py Shell")])
p("C32","Answers do not depend on what was asked before",
 "In any program which creates, copies and changes boards and in between asks questions about them (reading, printing, comparing, geometry, candidates, conflicts, completeness, uniqueness, solutions, solving, rating, scoring, hints, steps of single techniques, notation, generating, shells), no question changes any board, and every answer is the one obtained by a program which made the same changes and asked nothing else. What a caller does with an answer he got (a list, set, board or step) changes neither boards nor later answers. Random choices excepted.",
 ["histories"],"every history of changes and questions over several boards of any shapes, similar or not",
 "Each test asks one question in a fresh state; remembered or shared state only shows between questions about boards which resemble each other.",
 ["solve.py","solvers.py","analyze.py","sudoku.py","coordinates.py","notation.py","dlx.py"],[("all public functions","solve.py, solvers.py, analyze.py, sudoku.py, coordinates.py, notation.py")],["answers with and without the questions before, and all boards after every operation"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P), max(len(x['title']) for x in P))
