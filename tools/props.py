prop('C01', 'Document text never becomes active markup',
 'In the HTML produced for any Markdown document, text taken from the document never opens, closes or changes a tag, never leaves the quoted attribute value it is placed in, and never lands in an event handler, a style or another place of a tag. Every tag and attribute of the output is one the renderer itself writes.',
 ['inputs'], 'every document, and every place of the output where document text is inserted',
 'The tests compare a few documents with expected pages; hardly any contains markup characters in the places where text is inserted.',
 G, [('escaping of display text', 'gfm/src/lib.rs: Parser::sanitize_display_text'), ('emission of tokens', 'gfm/src/lib.rs: Parser::parse'),
     ('escaping of addresses', 'gfm/src/token.rs: percent_encode, ValidURL::fmt, fmt_unsafe, fmt_src')],
 'abstract interpretation of MIR; the output term is run through an HTML tokenizer state machine', 'proof',
 'Sound over all paths of the renderer for the modelled std functions; recursion handled by induction; trusts rustc MIR and the std models.')
prop('C02', 'Links and images never carry script or non-image data addresses',
 'No link or image address in the produced HTML has the scheme javascript (in any mixture of upper and lower case, or disguised with blanks, control characters or character references), and an address with the scheme data is always that of an image. This holds for inline links, links with titles, autolinks and images alike.',
 ['inputs'], 'every document and every address in it',
 'The tests try one or two lower-case javascript links; the rule is about every spelling, every kind of link and both attributes.',
 ['gfm/src/token.rs', 'gfm/src/lexer.rs', 'gfm/src/lib.rs'], [('link check', 'gfm/src/token.rs: validate_link'), ('address output', 'gfm/src/token.rs: Display for ValidURL, fmt_src')],
 'abstract interpretation of MIR; must-facts on the scheme at every address insertion point', 'proof',
 'Address insertions are decided from facts that hold on every path to them; trusts the std models (to_lowercase, find, split, starts_with).')
prop('C03', 'Rendering never panics',
 'Rendering returns a string for every Markdown text: no out-of-range index, no slice that cuts a multi-byte character, no unwrap of a missing value, no arithmetic overflow or underflow, no failed assertion.',
 ['inputs'], 'every UTF-8 text',
 'The tests feed a few hundred bytes of well-formed ASCII Markdown; panics need malformed constructs, ends of input or multi-byte characters at particular places.',
 G, [('every indexing, slicing, unwrap and checked arithmetic operation reachable from rendering', 'gfm/src/*.rs')],
 AI + ', one obligation per panic site', 'proof',
 'Every panic site reachable from the renderer is discharged on every abstract path; stack depth and memory exhaustion are out of scope; trusts the std models.')
prop('C05', 'Rendering is a pure function of the document',
 'Rendering the same Markdown text always gives the same HTML, whatever was rendered before, whatever the environment, locale, clock, files, threads or log level, and rendering changes nothing outside its return value (apart from log records).',
 ['inputs', 'histories', 'configurations'], 'every document, every earlier history of calls, every environment and log configuration',
 'Tests call the renderer once per fixture in one environment with logging off.',
 G, [('Parser::render and everything it reaches', 'gfm/src/lib.rs')],
 'interprocedural effect analysis over the MIR call graph', 'proof',
 'Sound over the resolved call graph; trusts the purity of std functions outside a deny list.')
prop('C04', 'Rendering always terminates',
 'Rendering returns for every Markdown text: no loop of the lexer, the parser or their helpers can run for ever (each round consumes input or a finite collection, also at the end of the input and for unterminated constructs), and every nested rendering of a part of a document works on a shorter text or on tokens nested in the ones at hand.',
 ['inputs'], 'every UTF-8 text',
 'The tests feed well-formed documents; loops that do not end need unterminated or empty constructs, often exactly at the end of the input.',
 G, [('loops and recursion of the lexer', 'gfm/src/lexer.rs'), ('cursor', 'gfm/src/iter.rs'), ('nested rendering', 'gfm/src/lib.rs: Parser::render, Parser::parse, Parser::lex')],
 AI + '; a ranking argument (cursor, iterator or counter) for every loop and a length measure for every recursive call', 'proof',
 'Every loop and every recursive call reachable from the renderer carries a discharged ranking obligation; the depth of the stack and the running time are out of scope; trusts the std models.')
prop('C12', 'Every element the page opens is closed',
 'In the HTML produced for any Markdown document, every element (paragraph, list, block quote, code, table, heading, details, footnotes, ...) has exactly as many end tags as start tags, whatever constructs follow one another, nest or are left open at the end of the document, and headings have a level from 1 to 6. The page never ends inside a tag.',
 ['inputs', 'histories'], 'every document, that is every sequence and nesting of constructs and every construct left open at the end',
 'Whether an element is still open depends on the whole sequence of constructs before it; the tests sample a few short sequences.',
 G, [('opening and closing of elements', 'gfm/src/lib.rs: Parser::parse'), ('heading levels', 'gfm/src/lexer.rs: lex_heading')],
 'abstract interpretation of MIR with an affine domain: start tags minus end tags of every element, related to the flags and counters of the renderer', 'proof',
 'Counts per element, not the order in which different elements are closed; markup of nested renderings is balanced by induction; trusts the std models and C01.')
prop('C15', 'Text that is not markup is kept exactly',
 'Lexing reads every document to its end, and every piece of text that it treats as plain text (ordinary text, and constructs that turn out not to be one: lone or unbalanced markers, unterminated links, code or tables) is exactly the source text that was consumed for it: nothing of it is lost, repeated or changed, apart from a backslash that escapes the next character and leading blanks of a line.',
 ['inputs'], 'every UTF-8 text and every way a construct can fail to be recognised',
 'The tests check complete constructs and a few malformed ones; the ways to fall back to plain text are many, and each has its own hand-computed start and end.',
 ['gfm/src/lexer.rs', 'gfm/src/iter.rs', 'gfm/src/lib.rs'], [('fall back to plain text', 'gfm/src/lexer.rs: next_token and the lex_* functions'), ('cursor', 'gfm/src/iter.rs'), ('lexing loop', 'gfm/src/lib.rs: Parser::lex')],
 AI + '; every plain text token compared with source[entry..exit] of the cursor', 'proof',
 'Decided for every abstract path of the lexer; constructs that are recognised are out of scope; trusts the std models.')
prop('C13', 'Every recognised construct appears in the page',
 'Everything the lexer recognised appears in the HTML: for every token (plain text, heading and its label, emphasis, code, code block and its language, block quote, list entry, task, link with its address, text and title, image with its address and text, table with every heading and cell, collapsible section with its summary and contents, footnote with its name and text) every piece of text and every nested element is in the page, every line break and horizontal rule leaves its element, whatever comes before and after it and however deep it is nested; letters and digits are kept, only punctuation may be escaped, encoded or removed. This is about writing the constructs that were recognised; recognising them (which parts of the source a token is made of) is not covered here.',
 ['inputs'], 'every sequence and nesting of constructs of any length',
 'Whether a construct is written depends on the flags left behind by the constructs before it; the tests render short documents with one construct each.',
 G, [('emission of tokens', 'gfm/src/lib.rs: Parser::parse'), ('escaping', 'gfm/src/lib.rs: Parser::sanitize_display_text, gfm/src/token.rs: percent_encode, Display for ValidURL')],
 AI + '; containment of every token text in the page as a loop invariant', 'proof',
 'Containment up to characters that are not letters or digits; what the lexer itself drops from a recognised construct (delimiters, alignment rows) is out of scope; trusts the std models.')
prop('C14', 'Special characters are escaped exactly once',
 'Every text of the document that appears in the produced HTML has had its ampersands escaped exactly once: no text reaches the page with a raw ampersand, none is escaped a second time (a reader never sees entity names that are not in the document), and addresses are percent-encoded at most once.',
 ['inputs'], 'every document and every place of the output where document text is inserted',
 'Only few fixtures contain ampersands or quotes, and only in paragraphs; nesting (quotes, lists, tables, headings) multiplies the ways to escape twice.',
 G, [('escaping of display text', 'gfm/src/lib.rs: Parser::sanitize_display_text'), ('nested rendering', 'gfm/src/lib.rs: Parser::parse, gfm/src/lexer.rs: lex_heading')],
 'abstract interpretation of MIR; escape-state of every inserted text', 'proof',
 'Decided on the value graph of the whole renderer; trusts the std models.')
CLI = ['smd/src/main.rs', 'smd/src/lib.rs', 'smd-core/src/fs.rs', 'smd-core/src/convert.rs', 'smd-core/src/browser.rs', 'smd-core/src/config.rs']
FA = 'path-sensitive value-origin and typestate dataflow over MIR from main'
FN = 'Covers every path of the command-line program through the workspace crates; library calls are modelled by what they promise (documented in analysis/flowmodels.py); every fallible call may fail.'
prop('C06', 'A successful run leaves a complete output file',
 'When `smd parse` exits with status 0, the output file (the input path with the extension replaced by html or pdf) holds exactly the rendering of the whole input document: for HTML the complete rendering, nothing before, after or left over from an earlier, longer file; for PDF exactly the bytes that the browser printed, after it had finished loading a page that held the complete rendering, from the tab that loaded it. A successful `smd initialize` leaves a completely written configuration file. The helpers read_to_string, write_to_file and write_bytes likewise return Ok only when everything was read or written.',
 ['inputs', 'fault_sequences', 'configurations'], 'every document, every earlier content of the output file, every failure or short write of the file system and the browser, both output formats',
 'Tests never make a write fail or stop half way, never have a longer file in place, and have no browser.',
 CLI, [('output', 'smd/src/lib.rs: run'), ('writing', 'smd-core/src/fs.rs: write_to_file, write_bytes'), ('printing', 'smd-core/src/convert.rs, smd-core/src/browser.rs')],
 FA + '; final content of every file as a term over the input', 'proof', FN + ' Power loss after exit and the browser itself are out of scope.')
prop('C07', 'The exit status tells whether the run succeeded',
 'The program exits with status 0 only if every file, directory, configuration, logger and browser operation it performed succeeded, and with a non-zero status when one failed; it does not end with a failure when nothing failed (other than refusing to overwrite its input or an existing configuration file). The public functions of smd_core return Ok only if the operations they performed succeeded.',
 ['inputs', 'fault_sequences'], 'every combination of failing operations',
 'Failures of reads, writes, directory creation, TOML parsing and the browser are not provoked by the tests.',
 CLI + ['smd/src/logger.rs'], [('error propagation', 'smd/src/lib.rs: run'), ('exit status', 'smd/src/main.rs: main')],
 FA + '; result of every fallible call followed to the exit status', 'proof', FN)
prop('C08', 'Only the files of the command are read or changed',
 '`smd parse` reads only the input document and the configuration file and changes only the output file beside the input (same directory and stem, extension html or pdf as requested) and, for PDF, one temporary file of its own in the current directory; `smd initialize` changes only the configuration file and creates only its missing parent directories. Nothing else is created, changed, renamed or removed, no process other than the browser is started and no network connection is made by the program itself.',
 ['inputs', 'configurations'], 'every input path, configuration and environment, every path through the program including failures',
 'Tests look at the files they expect, not at what else was touched.',
 CLI + ['smd/src/args.rs'], [('output path', 'smd/src/lib.rs: run'), ('temporary file', 'smd-core/src/convert.rs: PDFConverter::from_html'), ('configuration path', 'smd-core/src/config.rs')],
 FA + '; origin of the path of every file operation', 'proof', FN + ' What the browser touches is out of scope.')
prop('C09', 'Initialize never overwrites an existing configuration',
 '`smd initialize` leaves an existing configuration file as it is, whatever it contains (even if it is empty or invalid), and reports an error with a non-zero status; when it exits with status 0 there was no such file and it has written it.',
 ['inputs', 'histories'], 'every content of the configuration directory before the call (not a file that another process creates at the same moment)',
 'No test runs initialize at all.',
 ['smd-core/src/config.rs', 'smd-core/src/fs.rs'], [('existence check before the write', 'smd-core/src/config.rs: Config::initialize')],
 FA + '; must-established absence before every write to the configuration path', 'proof', FN)
prop('C10', 'Configuration round-trips, and the environment overrides the file',
 'What `smd initialize` writes is the default configuration in TOML (after comment lines), every value of every configuration type is written under a name and in a spelling that reading accepts as the same value, and loading uses the same path as initialize. When the configuration file exists, the loaded configuration is exactly its content overridden by the environment variables SMD__<SECTION>__<KEY>; without one, loading gives the same default values that initialize writes.',
 ['inputs', 'configurations'], 'every configuration value, file content and environment',
 'The tests parse one fixed TOML text; the environment test is commented out and no test writes a configuration and reads it back.',
 ['smd-core/src/config.rs', 'smd-core/src/lib.rs'], [('layers', 'smd-core/src/config.rs: Config::parse_from_str'), ('serde names', 'smd-core/src/config.rs: Config, ParseConfig, ParseErrorAction')],
 FA + '; derived Serialize and Deserialize implementations compared name by name', 'proof', FN + ' Trusts the config and toml crates.')
prop('C11', 'The temporary page of a PDF conversion is private and removed',
 'Converting to PDF never changes or deletes a file that was there before (other than the PDF output itself), and the temporary HTML page it writes is removed again on every path, whether the conversion succeeds, a write fails or the browser fails.',
 ['inputs', 'fault_sequences', 'schedules'], 'every content of the current directory, every failure of the file system or the browser, several conversions running in one directory',
 'No browser is available to the tests and none makes a conversion fail half way.',
 ['smd-core/src/convert.rs', 'smd-core/src/browser.rs', 'smd-core/src/fs.rs'], [('temporary file', 'smd-core/src/convert.rs: PDFConverter::from_html')],
 FA + '; exclusive creation and removal of the temporary file on all paths', 'proof', FN + ' Being killed, and a failure to delete, are out of scope.')
prop('C17', 'An invalid configuration stops the run before any output',
 'When the configuration file exists but cannot be read (a file that permissions hide altogether counts as absent), is not valid TOML or holds an invalid value (or an environment variable overrides it with one), `smd parse` ends with a non-zero status and without having created, changed or removed any file.',
 ['inputs', 'configurations'], 'every content of the configuration file and environment, both output formats',
 'Tests parse one invalid configuration in isolation and never run the program with one.',
 ['smd/src/lib.rs', 'smd-core/src/config.rs'], [('loading before converting', 'smd/src/lib.rs: run'), ('validation', 'smd-core/src/config.rs: Config::load_config')],
 FA + '; order of validation and file effects', 'proof', FN)
prop('C19', 'The document being converted is never modified',
 'No run of `smd parse` changes, truncates, renames or deletes its input document, whatever its name and extension (even one that already ends in .html or .pdf), even when the output path is a symbolic link to it or it was named through one, whether the run succeeds or fails.',
 ['inputs'], 'every input path, symbolic links included, and both output formats (hard links, which give a file two names of equal standing, are excluded)',
 'Tests never convert a file whose name already has the extension of the output, and never through a link.',
 ['smd/src/lib.rs', 'smd-core/src/fs.rs'], [('comparison of input and output path', 'smd/src/lib.rs: run, ensure_not_input')],
 FA + '; every file-changing operation is preceded by a comparison with the input path and of where both lead', 'proof', FN)
# ---- properties that static analysis cannot decide here
def nprop(id, title, statement, over, otext, why, files, mech, na):
    prop(id, title, statement, over, otext, why, files, mech, na=na)
nprop('C16', 'The page is what GitHub Flavored Markdown prescribes',
 'For every document the produced HTML means what the GFM specification says it means: which texts are headings, lists, tables, emphasis, code, links and how they nest.',
 ['inputs'], 'every document', 'The specification has over 600 examples and the tests contain a few of them.',
 G, [('lexer', 'gfm/src/lexer.rs'), ('renderer', 'gfm/src/lib.rs')],
 'The oracle is a 600-example prose specification with no formal grammar; deciding equivalence of two recognisers for it is not within reach of a static argument, and the program deviates from it deliberately in many places (its own tests fix the deviations).')
nprop('C18', 'The PDF looks like the page',
 'The PDF written for a document shows every element of the rendered page, on pages of the requested format.',
 ['inputs', 'configurations'], 'every document and every installed browser', 'No browser is available to the tests.',
 ['smd-core/src/browser.rs', 'smd-core/src/convert.rs'], [('printing', 'smd-core/src/browser.rs')],
 'The PDF is made by an external browser whose code is not part of the program; what can be decided here (which page is loaded, that its bytes are written unchanged) is C06.')
nprop('C20', 'Rendering takes time proportional to the document',
 'The time and memory of rendering grow in proportion to the length of the document (or at worst with a low power of it), whatever it contains.',
 ['inputs'], 'every document', 'Tests render short documents.',
 G, [('lexer', 'gfm/src/lexer.rs'), ('cursor', 'gfm/src/iter.rs')],
 'A bound on cost needs the number of rounds of each loop as a function of the input and the cost of each string operation; the cursor re-scans its prefix at every step, so no useful bound follows from the ranking functions of C04, and the present code is super-linear.')
nprop('C21', 'Deep nesting does not exhaust the stack',
 'Documents with any depth of nested quotes, lists and collapsible sections are rendered without a stack overflow.',
 ['inputs'], 'every document', 'Tests nest two levels.',
 G, [('recursion', 'gfm/src/lib.rs: Parser::parse, Parser::lex')],
 'The depth of the recursion is bounded by the nesting of the document only (C04 shows that it is finite), and frame sizes are decided by the code generator, not by the source; the present code does overflow for a document with some ten thousand nested quotes.')
nprop('C22', 'An interrupted run leaves either the old or the new output',
 'When the program is killed or the machine fails at any moment, the output file holds either its earlier content or the complete new one.',
 ['crash_points'], 'every moment of a run', 'Tests do not interrupt the program.',
 ['smd/src/lib.rs', 'smd-core/src/fs.rs'], [('writing', 'smd-core/src/fs.rs: write_to_file, write_bytes')],
 'The program does not promise it: the output is truncated and written in place. Making it atomic would be a new feature, not a repair.')
nprop('C23', 'The npm and PyPI packages start the program they ship',
 'The wrapper packages pass every argument to the binary of the platform and return its exit status.',
 ['configurations'], 'every platform and every argument', 'The wrappers have no tests.',
 ['npm/smd/src/cli.ts', 'npm/smd/src/getExePath.ts', 'pypi/pyproject.toml'], [('wrapper', 'npm/smd/src/cli.ts')],
 'The binaries and platform packages that the wrappers resolve are made by the release pipeline and are not in the repository; their names and layout cannot be decided from the source.')
