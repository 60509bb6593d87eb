SPELL_TECH = 'TLA+ spelling machine (Writer/Walk + Spelling) enumerated by TLC; every behaviour replayed into the converter'
SPELL_NOTE = ('Bounded exhaustive over the letter plans and seeded long walks; the specification states each orthography independently of the code. '
              'Trusts the letter charts in data/charts.json and that texts follow Alphabet.tla. ')
SPELL_WHY = ('The guarantee ranges over all letter sequences; the tests convert a few fixed texts per script into Devanagari and back and '
             'miss most letter clusters and all other source/target pairs.')
SPELL_OVER = 'every well-formed sequence of letters (vowels, signs, consonants incl. nukta/prenasalised, virama, modifiers, digits, signs, foreign characters), at every position of the text, from every script in which it is unambiguous'


def spelling(id, title, scripts, extra):
    prop(id, title,
         'Converting a text into %s, without nativization, yields exactly the spelling that the orthography of that script prescribes for the letters of the text, %s. This holds wherever in the text the letters stand, and whichever script of the group the text is converted from.' % (scripts, extra),
         ['inputs'], SPELL_OVER, SPELL_WHY, [CF, CV, PP, MAPS],
         [('script maps', MAPS), ('letter-by-letter replacement', CV + ' convertScript'), ('per-script orthographic fixes', CF + ' FixIndicOutput and the Fix<Script> functions')],
         SPELL_TECH, SPELL_NOTE, observe=['transliterate.process(source, target, text, nativize=False)'])


spelling('C01', 'Main Indian scripts are spelled correctly',
         'Bengali, Assamese, Gurmukhi, Kannada, Malayalam, Sinhala, Tamil, Extended Tamil, Tamil-Grantha, Telugu, Gujarati, Oriya, Grantha or Sharada',
         'e.g. chillus, repha, addak and tippi, khanda ta, va/ba and ya/yya, superscripted Tamil stops, touching and ligated Sinhala letters')
spelling('C02', 'Historic Indian scripts are spelled correctly',
         'Mahajani, Ahom, Multani, Khudawadi, Zanabazar Square, Khojki, Bhaiksuki, Kaithi, Saurashtra, Brahmi, Dogra, Modi, Newa, Siddham, Takri, Tirhuta, Dives Akuru, Kawi, Soyombo, Marchen or Kharoshthi',
         'e.g. cluster-initial and final letters, repha, geminates, and the word separators some of them use')
spelling('C03', 'Minority and island scripts are spelled correctly',
         'Meetei Mayek, the Batak scripts, Cham, Lepcha, Sundanese, Rejang, Balinese, Javanese, Tagbanwa, Tagalog, Hanunoo, Buhid, Buginese, Makasar, the Gondi scripts, Chakma or Limbu',
         'e.g. final consonants, medial ya/ra, visually reordered Lepcha signs, and vowel signs standing on the consonant before a final')
spelling('C04', 'Southeast Asian and Tibetan scripts are spelled correctly',
         'Khmer, Burmese, Mon, the Shan and Tham scripts, Thai, Khom, Lao Pali or Tibetan',
         'e.g. subscript letters, kinzi, medial letters, vowels written before their consonant cluster, and Tibetan stacks')
prop('C05', 'Text reads back from every script without loss',
     'A text written in any supported Brahmic script, in which each of its letters has a spelling of its own and no run of them is spelled like another one, converts to Devanagari as exactly the letters that were written. Nothing is lost, duplicated or reordered, wherever the letters stand.',
     ['inputs'], 'every legible letter sequence of each of about 85 scripts, alone and in running text',
     'The tests read back a few fixed texts; the reading rules (reordering, finals, repha, merged signs) fail on clusters and positions those texts lack.',
     [CF, CV, PP, PR, MAPS],
     [('reverse halves of the script fixes', CF + ' Fix<Script>(reverse=True)'), ('letter-by-letter replacement', CV + ' convertScript')],
     'TLA+ spelling machine with a legibility predicate (Legible.tla); TLC enumerates texts, the converter must read every legible spelling back',
     'Bounded exhaustive over the letter plans plus seeded long walks; ambiguous spellings are excluded by an explicit predicate in the specification.',
     observe=['transliterate.process(script, "Devanagari", text, nativize=False)'])
prop('C06', 'Romanisation follows each scheme exactly',
     'Converting Indic text into IAST, ISO, Harvard-Kyoto, ITRANS, Velthuis, SLP1, WX, Titus, IPA, Russian Cyrillic, readable or colloquial Roman, Baraha, or another alphabetic scheme yields exactly the letters of that scheme. The inherent vowel is written where no vowel sign or virama suppresses it, hiatus and stop + h are kept apart from diphthongs and aspirates, and Vedic accents go onto their vowel.',
     ['inputs'], SPELL_OVER + '; 24 alphabetic schemes', SPELL_WHY, [CF, CV, PP, MAPS + '/Roman'],
     [('schwa and hiatus handling', CF + ' FixRomanOutput'), ('per-scheme fixes', CF + ' PostFixRomanOutput and Fix<Scheme>'), ('Vedic accents', CF + ' VedicSvarsIndicLatin')],
     SPELL_TECH, SPELL_NOTE, observe=['transliterate.process(source, scheme, text, nativize=False)'])
prop('C07', 'Latin text reads into every script',
     'A text typed in ITRANS, Harvard-Kyoto, IAST, ISO, Velthuis, SLP1, WX, Titus, IPA, Russian Cyrillic, Baraha, readable Roman or another alphabetic scheme, including the alternative spellings and accents the scheme allows, converts without nativization to each Indic script as exactly the letters that were typed, each spelled as that script prescribes. The longest letter of the scheme is taken at every position, a consonant takes the vowel typed after it as its sign and is mute when none follows, and characters that are not in the scheme stay where they are.',
     ['inputs'], 'every sequence of letters, alternative letters, accents, digits, signs and foreign characters of 27 alphabetic schemes with one segmentation into letters, into about 75 scripts',
     'The tests read a few fixed texts per scheme; mistakes in vowel hiatus, digraphs that run into each other, word-initial and syllable-final positions or alternative spellings need combinations those lack.',
     [CF, CV, PP, PR, MAPS + '/Roman'],
     [('reading Latin letters', CV + ' convertScript, Roman branches'), ('alternative spellings', PR + ' and ' + CF + ' FixRoman*'), ('vowels and hiatus', CF), ('Vedic accents', CF + ' VedicSvarasLatinIndic')],
     'TLA+ reader of alphabetic schemes (Reader.tla) with a typist machine (Typist.tla) enumerated by TLC; every page replayed into the converter',
     'Bounded exhaustive over the typing plans plus seeded long walks; pages with more than one segmentation into letters are excluded by explicit predicates (Torn, Trap).',
     observe=['transliterate.process(scheme, script, text, nativize=False)'])
prop('C08', 'Each conversion depends on its own arguments only',
     'The answer of process() is a function of its arguments: it is the same in a new process, after any history of other conversions, next to conversions running in other threads, and under any hash seed. Option lists passed in are left as they were.',
     ['histories', 'schedules'], 'every order of about 800 calls covering all scripts, options and ways to name scripts; schedules of two or three threads switched inside calls',
     'Each test makes its calls in one fixed order in one thread; state leaking from one conversion into a later or concurrent one shows only in particular histories or schedules.',
     [TR, CV, GM, PO, 'aksharamukha/gimeltra.py'],
     [('entry points and default arguments', TR + ' process, convert'), ('shared tables', GM + ' CrunchSymbols, CrunchList; ' + TR + ' _load_data'), ('option lists', PO + ' ApplyScriptDefaults')],
     'TLA+ session machines (Session.tla: clients, steps, switches, memory; Rounds.tla: strides over all calls); TLC enumerates histories and schedules, replayed in one process against answers of new processes',
     'Histories: every call after many others per run (all ordered pairs in the thorough run). Threads are switched at line granularity inside the package with up to 2 or 3 switches.',
     observe=['transliterate.process'])
prop('C09', 'Lines and words convert on their own',
     'Converting a document gives the conversion of its words and lines with the separators between them unchanged: line breaks always, and spaces, tabs and characters foreign to every script for targets that write spaces between words. This holds for every source except Kana and every target except Phags-pa, with and without nativization, and with options other than those about spaces, sentences or the whole text.',
     ['inputs', 'histories'], 'every pair of about 30 sources and 190 targets, all options, documents of up to six cells and long ones of 40 lines',
     'Tests convert single short texts; rules that look across a line break, stop at the first line, or depend on the position in the document are not seen.',
     [TR, CV, CF, 'aksharamukha/PostProcess.py', PR],
     [('whole-text rules', CF + ', ' + 'aksharamukha/PostProcess.py'), ('conversion', TR + ' convert')],
     'TLA+ document machine (Document.tla: insert, replace, remove cells with a cell-wise conversion kept up to date); TLC enumerates documents, replayed as whole documents against cell-wise conversion',
     'Documents are exhaustive over 3 words and 2 separators up to 5 (6) cells, sampled over script pairs and options.',
     observe=['transliterate.process'])
prop('C10', 'Every text gets an answer, whatever the scripts and options',
     'process() answers with a text, and in reasonable time, for any input text (empty, long, control and private characters, unpaired surrogates, marks without letters, punctuation with a meaning in regular expressions) between any two supported scripts with any supported options. It never raises an error on supported script and option names.',
     ['inputs'], 'all sequences of up to 3 (4) of 20 classes of characters, repeated up to 700 times, over all pairs of about 190 scripts and all options',
     'Tests use well-formed texts of the expected script; crashes come from empty texts, unexpected characters, missing tables, and particular pairs or options.',
     [TR, CV, CF, 'aksharamukha/PostProcess.py', PR, GM, 'aksharamukha/gimeltra.py'],
     [('conversion', TR + ' convert'), ('options by name', TR + ' convert_default'), ('script tables', GM + ' CrunchSymbols')],
     'TLA+ client machine (AnyText.tla) with the liveness property that every text sent is answered; TLC enumerates the texts by class, replayed over script pairs and options',
     'Exhaustive over class sequences, sampled over characters, script pairs and options. Tamil to IPA (a web service) and KhmerWordSplit (a language model) are left out.',
     observe=['transliterate.process'])
spelling('C11', 'Rare Indic scripts, Thaana and alphabets are spelled correctly',
         'Nandinagari, Pallava, Vatteluttu, Grantha-Pandya, Grantha-Grantamil, Siddham-Devanagari, Tamil Brahmi, Syloti Nagri, Ranjana, Bengali (ra/ba), Old Persian, Thaana, Warang Citi, Hanifi Rohingya, Mongolian or Avestan',
         'e.g. inherent vowels written out in the alphabets, additive Old Persian numerals, Warang Citi joiners, and Mongolian syllable forms')
FI = 'aksharamukha/transliterate_file.py'
prop('C12', 'Files: exactly the text is converted, into one new file',
     'Converting a .txt, .html or .docx file writes one new file beside it, of the same kind and named after it, in which every piece of text is the conversion of the original text with the given options and everything else (markup, attributes, comments, scripts, line ends, pictures, other parts) is as it was. The original and all other files stay as they were, in any sequence of requests. A request that cannot be carried out (missing or unsupported file, failing conversion) changes no file.',
     ['inputs', 'histories'], 'documents of up to 2 (3) items of 5 to 12 kinds, histories of 2 (3) requests incl. converting results again, repeating requests, and failing ones',
     'There are no tests of file conversion; its errors show in particular document structures (empty runs, comments, inline markup), names, and failing requests.',
     [FI], [('dispatch by kind of file', FI + ' process'), ('text files', FI + ' convert_txt'), ('web pages', FI + ' convert_html'), ('Word documents', FI + ' convert_docx, xml_file_to_convert')],
     'TLA+ directory machine (Files.tla: requests, documents of typed items) checked and enumerated by TLC; every history replayed in a scratch directory',
     'Exhaustive over item sequences and request histories within the bounds; the words of the text, options and script pairs are sampled. Text is converted item by item; the conversion itself is taken from process().',
     observe=['transliterate_file.process', 'transliterate_file.convert_html / convert_docx in API mode'])
prop('C13', 'Scripts are found by name, code or language, and recognised in texts',
     'A script asked for by its name, script code, language code, language-script pair or language name, in any letter case, as source or as target, is the same as asking for it by its name; of several, the most widely used one is meant, and unknown names are errors. With autodetect, a text is converted as one in the script most of its characters belong to, with the options its spelling calls for, whichever way the target is named.',
     ['inputs'], 'all names, codes, pairs and languages of the registry in three letter cases; all texts of up to 5 (6) letters of 7 families of scripts sharing a block, and mixtures of 65 scripts',
     'Tests name scripts in one way and never mix scripts, languages and letter cases; errors show for particular codes only.',
     [TR], [('names', TR + ' process_default, process_script_tag, process_lang_tag, process_lang_name'), ('recognition', TR + ' auto_detect, detect_preoptions')],
     'TLA+ specification of name resolution (Names.tla) and of recognition (Detect.tla), model-checked and enumerated by TLC; every answer replayed into process()',
     'Ties are left open. The registry of codes, languages and speakers is data from the repository.',
     observe=['transliterate.process', 'transliterate.auto_detect'])
prop('C14', 'Nativized spelling follows the customs of each script',
     'With nativization, the default, a text is spelled as the script is customarily written: the plain spelling rewritten by the customs of that script (anusvara for nasals or the reverse, Tamil na and nna, Bengali yya and ba, tippi and addak, Ahom closed vowels, Avestan finals, dropped historic letters), and the marks that only keep transliterated letters apart are dropped. Nothing else changes, wherever in the text the letters stand.',
     ['inputs'], SPELL_OVER + '; all targets of C01-C04, C06 and C11', 'Nativization is the default of the interface, yet the tests run nearly everything with it switched off.',
     [PP, 'aksharamukha/PostOptions.py', TR], [('customs per script', 'aksharamukha/PostOptions.py ApplyScriptDefaults and the functions it names in ' + PP), ('order of the steps', TR + ' convert')],
     'TLA+ specification of styles (Style.tla) on top of the spelling machine, enumerated by TLC; every behaviour replayed into the converter with nativize=True',
     'Bounded exhaustive over letter plans plus seeded walks. Tamil words beginning with na are data. Consecutive Bengali ya are as the test suite pins them.',
     observe=['transliterate.process(source, target, text, nativize=True)'])
prop('C15', 'Spelling options do what they say, in order, and nothing else',
     'Each post-processing option for a spelling variant of a script (about 160: archaic letters, repha forms, chillus, retained spaces, alternative vowels, numerals) rewrites exactly the letters it is about. Options apply in the order given, after nativization if that is asked for, in any letter case of their names, and numerals and full stops last; a text without those letters is unchanged.',
     ['inputs'], SPELL_OVER + '; about 160 options alone, and seeded combinations and orders of them', 'The tests use options on single words, one at a time.',
     [PP, TR], [('the options', PP), ('order and names of options', TR + ' convert, convert_default')],
     'TLA+ specification of options (Style.tla) on top of the spelling machine, enumerated by TLC; every behaviour replayed with the options',
     'Bounded exhaustive over letter plans, seeded option combinations. Options that only serve heuristic romanizations or another target script are not covered.',
     observe=['transliterate.process(source, target, text, post_options=...)'])
