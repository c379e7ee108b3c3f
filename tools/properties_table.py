"""source of properties.jsonl / MANIFEST.json, see gen_manifest.py"""
TEI = 'structured_document/grobid_training_tei.py'
UTILS = 'auto_annotate_utils.py'

TRUST = (
    'Every input within the stated bounds is decided by z3 over paths of the real code; trusts the '
    'rewriting engine (validated by replaying path models on the unmodified code each run), lxml and '
    'the foreign functions listed in the evidence. '
)

PROPS = [
    dict(
        id='C01', title='No text is lost, added or reordered by annotating a document',
        statement=(
            'Loading a training document, tagging any of its words in any way and writing it back '
            'yields a document with exactly the same characters in the same order, with every line '
            'break at the same place relative to the words. Everything around the annotated part '
            '(other elements, their attributes, the attributes of the annotated part itself) is '
            'unchanged, the loaded document and the source file are not modified, and compressed '
            'files are read and written according to their name.'),
        over=['inputs', 'configurations'],
        text='every document text, element and line break layout, tagging, mapping and preserve option',
        why='tests compare a few literal documents; the guarantee is over all text and all taggings',
        files=[TEI], mech=[
            ('reading: text to tokens and lines', TEI + ':LineBuffer, _iter_extract_lines_from_element'),
            ('writing: tokens to elements', TEI + ':_lines_to_tei, _updated_tei_with_lines')],
        note=TRUST + 'Quick: up to 5 characters in 18 layouts.'),
    dict(
        id='C02', title='Words end up in the elements of their tags, and read back the same',
        statement=(
            'In the written document every word lies under exactly the element path configured for '
            'its tag (or sub tag below its tag), a new element starts exactly where a begin tag or a '
            'different tag says so, and a blank between differently tagged words stays outside of '
            'them. Reading the written document again gives every word the same tag and sub tag, with '
            'a begin prefix exactly where an element starts, and writing it again without changes '
            'yields the same structure.'),
        over=['inputs', 'configurations'],
        text='every sequence of tags and sub tags over words and separators, every mapping used',
        why='tests cover some tag sequences; boundaries depend on combinations of neighbours',
        files=[TEI], mech=[
            ('element boundaries', TEI + ':_lines_to_tei'),
            ('reading back', TEI + ':_iter_extract_lines_from_element')],
        note=TRUST + 'Quick: 2-4 words, 4 mappings.'),
    dict(
        id='C03', title='Existing tags are kept or dropped exactly as the options say',
        statement=(
            'With tag preservation off, or for fields being annotated, existing tags of a document '
            'are dropped; otherwise they are kept where the annotation assigns nothing, and fields '
            'that are always to be preserved are never re-tagged. When always-preserved fields are '
            'given only their existing tags are kept. Sub tags are kept or dropped by their own '
            'options in the same way and go when their word is re-tagged, kept elements keep their attribute whatever its value, and the output is written to the output or the failed-output '
            'location according to the document checks.'),
        over=['inputs', 'configurations'],
        text='every combination of existing tags, annotated fields, preserve options and new tags',
        why='tests fix one option combination at a time on one document',
        files=[UTILS, TEI], mech=[
            ('option application', UTILS + ':_preprocess_structured_document_for_annotation, annotate_structured_document'),
            ('preserved tags', TEI + ':GrobidTrainingTeiStructuredDocument.set_tag')],
        note=TRUST + 'Quick: 2-3 words.'),
    dict(
        id='C04', title='Values are tagged exactly where they are, other words are not touched',
        statement=(
            'A value of the source XML that is in the document gets its tag on exactly its words, '
            'whatever the case, dashes, quotes and line breaks it is written with; several values, or '
            'the same value several times, are each tagged at their own place in order, values of a '
            'list as one unless far apart, values in two parts in both (where enabled), and its label '
            'or alternative spellings as configured. Parts of a value get their sub tag on exactly '
            'their words within the value. Words that already have a tag keep it, no word gets a tag '
            'that is not one of a value, and the text never changes.'),
        over=['inputs', 'configurations'],
        text='every document, place, spelling, existing tagging and combination of target values',
        why='tests annotate one or two literal lines per feature',
        files=['annotation/simple_matching_annotator.py', 'annotation/matching_utils.py',
               'core/annotation/matching_annotator.py'], mech=[
            ('matching', 'annotation/simple_matching_annotator.py:SimpleMatchingAnnotator'),
            ('text positions', 'annotation/matching_utils.py:JoinedText, SequencesText'),
            ('complex matcher', 'core/annotation/matching_annotator.py:MatchingAnnotator')],
        note=TRUST + 'Quick: documents up to 5 lines; see DESIGN.md for the complex matcher.'),
    dict(
        id='C05', title='Fuzzy search finds text that is there, and reports what is really similar',
        statement=(
            'Searching a value in text reports it at its exact place whenever it is there, as itself '
            'or with few enough characters changed, added or missing for the threshold, however long '
            'the text before it is; a range that is reported is in bounds, not before the start index '
            'and at least as similar as asked for, and otherwise nothing is reported. Searching all '
            'occurrences reports each of them once, in order. A value that is in the text in two '
            'parts is found in both parts at their exact places.'),
        over=['inputs', 'configurations'],
        text='every value, surrounding text, position, threshold and kind of difference',
        why='tests search literals of a few words; results depend on positions, window borders and ties',
        files=['utils/fuzzy.py'], mech=[
            ('search', 'utils/fuzzy.py:fuzzy_search_index_range, fuzzy_search_index_range_chunks'),
            ('similarity', 'utils/fuzzy.py:StringView, FuzzyMatchResult'),
            ('occurrences', 'utils/fuzzy.py:iter_fuzzy_search_all_index_ranges')],
        note=TRUST + 'Quick: values up to 14 characters; text up to 2500 characters.'),
    dict(
        id='C06', title='Tags are extended to neighbouring words exactly where configured',
        statement=(
            'On a line, untagged words between words of the same field are tagged (and the parts '
            'become one) if merging is enabled for the field, and untagged words before the first or '
            'after the last tagged words are tagged if extending is enabled and they are fewer than '
            'those tagged words; tagged words never change their field. Within a reference, page '
            'parts, "et al." after names, the dot after a name, the name of an identifier in front '
            'of it (if enabled) and text between parts of the same merged kind are joined to that '
            'part. Nothing is joined across references, no other word and no main tag is changed.'),
        over=['inputs', 'configurations'],
        text='every sequence of tags on a line or in a reference, text between them, and settings',
        why='the result depends on combinations of neighbouring tags, texts and settings; tests use a '
            'few literal sequences',
        files=['annotation/simple_matching_annotator.py', 'annotation/reference_annotator.py',
               'auto_annotate_reference.py'], mech=[
            ('lines', 'annotation/simple_matching_annotator.py:get_extended_line_token_tags'),
            ('references', 'annotation/reference_annotator.py:ReferencePostProcessingAnnotator')],
        note=TRUST + 'Quick: lines of 3-6 words, references of 2-5 parts.'),
    dict(
        id='C07', title='Segmentation gives every line its area, and keeps page numbers',
        statement=(
            'The area of a line is the one configured for the tag most of its words have; lines '
            'without tags within front, annex or reference matter get the area around them, repeated '
            'lines become page headers, single numbers that increase between known page numbers '
            'become page numbers, and front matter starting too late is not front. All other lines '
            'become body text, or keep their existing elements if tags are preserved (existing page '
            'numbers always stay page numbers then). All words of a line get the same area, and '
            'references are merged, and the limits applied, as configured.'),
        over=['inputs', 'configurations'],
        text='every sequence of tagged, untagged, repeated, number and page lines, every setting',
        why='the area of a line depends on all lines before and after it; tests use a handful of '
            'sequences',
        files=['annotation/segmentation_annotator.py', 'auto_annotate_segmentation.py'], mech=[
            ('areas', 'annotation/segmentation_annotator.py:SegmentationAnnotator.annotate'),
            ('page numbers', 'annotation/segmentation_annotator.py:find_missing_page_numbers'),
            ('gaps', 'annotation/segmentation_annotator.py:merge_lines')],
        note=TRUST + 'Quick: documents of 4 lines of 8-9 kinds.'),
    dict(
        id='C08', title='Line numbers: only consecutive leading numbers are tagged, all of them',
        statement=(
            'The words tagged as line numbers on a page are the first words of their lines, are '
            'positive whole numbers that strictly increase down the page, form runs of at least the '
            'minimum length with steps within the allowed gap, and make up at least the minimum share '
            'of the lines; no other word changes and pages are judged on their own. A page whose '
            'leading numbers are one such run is tagged completely. The command line settings '
            'for enabling it, minimum count, gap and ratio reach the annotator.'),
        over=['inputs', 'configurations'],
        text='every page of line-leading words, existing tags and setting values',
        why='tests use two or three hand-written pages and default settings',
        files=['annotation/line_number_annotator.py', UTILS], mech=[
            ('candidates and runs', 'annotation/line_number_annotator.py:iter_find_line_numbers'),
            ('settings', UTILS + ':add_annotation_pipeline_arguments, get_line_number_annotator_config_parse_args')],
        note=TRUST + 'Quick: up to 4 lines.'),
    dict(
        id='C09', title='Fixing JATS references only changes mark-up, and marks identifiers exactly',
        statement=(
            'Fixing a JATS document never changes, loses or reorders the text of a reference, keeps its '
            'other elements, and changes nothing outside of references but the added meta data, which '
            'states exactly how many and which references changed and whether the XML was '
            'malformatted. After fixing, a DOI, PMID, PMCID or PII element contains just an identifier '
            'of that kind, an identifier of a kind not yet marked up is marked up exactly where it is '
            'in the text, once, a DOI that directly follows a DOI URL prefix becomes a link to that '
            'URL, and quotes around a title are moved out of it. The result is written below the '
            'output path at the relative path of the source, and a source file is never overwritten.'),
        over=['inputs', 'configurations'],
        text='every text, identifier, layout of existing elements, source and output path',
        why='tests fix some literal references, most with one element; text is lost for others',
        files=['fix_jats_xml.py'], mech=[
            ('moving text', 'fix_jats_xml.py:change_annotation_to_matching_text, '
             'replace_element_with_text, add_next_sibling_element'),
            ('finding identifiers', 'fix_jats_xml.py:find_*_start_end'),
            ('files', 'fix_jats_xml.py:fix_jats_xml_file, FixJatsProcessor')],
        note=TRUST + 'Quick: 48 layouts with up to 6 symbolic characters.'),
    dict(
        id='C10', title='Source files are copied in pairs, unchanged, to the configured names',
        statement=(
            'Exactly the pairs of a document and its target of which both files exist (up to the '
            'limit) are copied, each file with its content to the name the output pattern gives for '
            'it (directory, file name, name and extension of itself, the document and the target, '
            'index), relative to the base path or the directory of the list. Source files are never '
            'changed, also if the output is where they are; lists of different length, no existing '
            'pair and files that cannot be written are reported as an error. The result does not '
            'depend on the number of threads or their schedule.'),
        over=['inputs', 'configurations', 'interleavings'],
        text='every file name, pattern, list format, set of existing files, thread count and schedule',
        why='tests replace the file system and list loading with mocks',
        files=['download_source_files.py'], mech=[
            ('pairs', 'download_source_files.py:filter_file_pair_exists'),
            ('names', 'download_source_files.py:get_relative_output_filename'),
            ('copying', 'download_source_files.py:copy_file, copy_files')],
        note=TRUST + 'Quick: 2 pairs, 2 threads with up to 2 preemptions, names of 3 characters.'),
    dict(
        id='C11', title='Every selected file is processed once, independent of other files and workers',
        statement=(
            'Each source file selected by path, pattern and limit is annotated with the target of its '
            'own name and written once, under its own name, to the output directory, or to the failed '
            'output directory (if given) when it fails the document checks; nothing else is written, '
            'sources are not modified, and with --resume files that already have an output are left '
            'alone. A file that cannot be processed has no output and is reported by name; with '
            '--skip-errors all the others are still processed. With any number of workers, however '
            'they are scheduled, every file comes out as if it was processed on its own (JATS fixing '
            'included).'),
        over=['inputs', 'configurations', 'schedules'],
        text='every combination of file states and options, every worker schedule within the bound',
        why='tests run one or two good files; failures and schedules combine',
        files=[UTILS, 'fix_jats_xml.py', 'utils/regex.py'], mech=[
            ('pipeline', UTILS + ':AbstractAnnotatePipelineFactory.auto_annotate, get_remaining_source_file_list'),
            ('workers', UTILS + ":AbstractAnnotatePipelineFactory.run_local_pipeline"),
            ('names', UTILS + ':get_tei_xml_output_file_for_source_file, '
             'get_target_xml_for_source_file; utils/regex.py:regex_change_name')],
        note=TRUST + 'Quick: 2 files, 2 workers, 2 preemptions.'),
    dict(
        id='C12', title='Document checks accept exactly the documents that satisfy them',
        statement=(
            'A document passes the checks exactly if every required field has a value in the source '
            'XML, and every required or to-be-matched field that has a value is annotated in the '
            'document with text (all its annotated parts joined) at least as similar to the value as '
            'the threshold. Passing documents are written to the output location, failing ones only '
            'to the failed-output location if there is one. In segmentation documents the value of a '
            'required field has to occur within the area tagged for it.'),
        over=['inputs', 'configurations'],
        text='every document tagging, source value, threshold and required/matching field setting',
        why='tests check single hand-written documents per condition',
        files=['annotation/checks.py', 'auto_annotate_segmentation.py', UTILS], mech=[
            ('document check', 'annotation/checks.py:is_structured_document_passing_checks'),
            ('segmentation check', 'auto_annotate_segmentation.py:SegmentationAnnotatePipelineFactory'),
            ('routing', UTILS + ':annotate_structured_document')],
        note=TRUST + 'Quick: 1-3 words.'),
    dict(
        id='C13', title='Tag post-processing changes exactly the words it is configured for',
        statement=(
            'Replacing tags changes exactly the words with a replaced tag (keeping begin and inside '
            'prefixes), merging groups tags exactly the untagged words that follow a word of the group '
            '(for sub tags: within the same element), '
            'and expanding tags exactly the untagged words whose nearest tagged word in the direction '
            'has an enabled tag, as one element. Removing untagged text removes exactly the untagged '
            'words and keeps the line structure of the others. Annotating sub tags only leaves all '
            'main tags as they were, and none of them changes any other word.'),
        over=['inputs', 'configurations'],
        text='every sequence of own and existing tags over every line layout',
        why='tests use single short sequences',
        files=['annotation/replace_tags_annotator.py', 'annotation/merge_group_tags_annotator.py',
               'annotation/expand_to_untagged_lines_annotator.py',
               'annotation/remove_untagged_annotator.py', 'annotation/sub_tag_annotator.py', TEI],
        mech=[('replace', 'annotation/replace_tags_annotator.py'),
              ('merge', 'annotation/merge_group_tags_annotator.py'),
              ('expand', 'annotation/expand_to_untagged_lines_annotator.py'),
              ('remove', TEI + ':remove_all_untagged'),
              ('sub tags only', 'annotation/sub_tag_annotator.py')],
        note=TRUST + 'Quick: 3-4 words.'),
    dict(
        id='C14', title='Options and field mappings are interpreted as documented',
        statement=(
            'Comma separated lists, additions and removals relative to defaults and key=value lists '
            'parse to exactly their items (trimmed), refusing malformed ones. Selecting fields and '
            'sub fields keeps exactly their settings of the mapping, overrides replace exactly the '
            'named settings, and a file name pattern derives the source XML name without touching '
            'other names.'),
        over=['inputs', 'configurations'],
        text='every option string and every subset of fields, sub fields and overrides',
        why='tests use a handful of literal strings',
        files=['utils/misc.py', 'utils/regex.py', UTILS, 'utils/xml.py'], mech=[
            ('list parsing', 'utils/string.py, utils/misc.py'),
            ('mapping selection', UTILS + ':get_xml_mapping_and_fields, get_filtered_xml_mapping_and_fields'),
            ('file names', 'utils/regex.py:regex_change_name')],
        note=TRUST + 'Quick: up to 5 characters per option.'),
    dict(
        id='C15', title='Source documents are repaired without losing text or elements',
        statement=(
            'A well-formed document is passed on unchanged; any other is turned into well-formed XML '
            'with all its text, elements and attribute values in order, where an end tag closes the '
            'nearest open element of its name (and the ones inside it), one without open element '
            'closes the current element unless that is the root, and elements left open end with the '
            'document. Figure documents only lose end tags of content elements that were never '
            'opened. Source XML with leading blanks or dagger entities can be read when fixing is '
            'enabled, other invalid XML is reported, and source files are never modified.'),
        over=['inputs'],
        text='every sequence of tags, text, entities and attributes',
        why='tests repair five literal documents',
        files=['utils/xml.py', 'auto_annotate_figure.py'], mech=[
            ('repair', 'utils/xml.py:FixingHtmlParser, get_fixed_xml_str'),
            ('reading', 'utils/xml.py:parse_xml, auto_download_and_fix_input_file'),
            ('figures', 'auto_annotate_figure.py:fix_source_file_to')],
        note=TRUST + 'Quick: 5 events; the standard html parser is encoded as well.'),
    dict(
        id='C16', title='Target values contain exactly the configured text of the source XML',
        statement=(
            'The value extracted for a field contains all text of the configured elements, in '
            'document order with words of adjacent elements separated and blanks normalised, and '
            'nothing of ignored children. Children, concatenation, unmatched text, regular '
            'expression, priority and page range settings select exactly the parts they describe; '
            'sub values are taken from within their parent.'),
        over=['inputs', 'configurations'],
        text='every source XML content and combination of mapping settings',
        why='tests use one literal XML per setting',
        files=['annotation/target_annotation.py', 'utils/xml.py'], mech=[
            ('extraction', 'annotation/target_annotation.py:xml_root_to_target_annotations'),
            ('text content', 'utils/xml.py:get_text_content')],
        note=TRUST + 'Quick: up to 5 characters per element.'),
    dict(
        id='C17', title='Each command marks up the text of the JATS fields as its model defines',
        statement=(
            'Each of the eight auto-annotate commands, run with the shipped mapping settings on a document whose '
            'lines each hold one value of a field of its model or text that is not in the JATS XML, writes that '
            'document with exactly the same text, the elements of its model for that field (and its sub fields) '
            'around each value, and its element for other text around the rest, whatever the order of the lines and '
            'whichever field is missing in the JATS XML. Existing elements stay or are dropped as the preserve '
            'options say, and sub fields, segmentation, removal, expansion and prefix options have exactly their '
            'documented effect.'),
        over=['inputs', 'configurations'],
        text='every order and selection of lines and existing elements, every letter of the alphabet in the values',
        why='tests run the commands on one document with one line each',
        files=['auto_annotate_header.py', 'auto_annotate_fulltext.py', 'auto_annotate_segmentation.py',
               'auto_annotate_reference_segmenter.py', 'auto_annotate_reference.py',
               'auto_annotate_affiliation_address.py', 'auto_annotate_figure.py', 'auto_annotate_table.py',
               'auto_annotate_utils.py'], mech=[
            ('commands', 'auto_annotate_utils.py:AbstractAnnotatePipelineFactory'),
            ('model elements', 'auto_annotate_fulltext.py:FULLTEXT_TAG_TO_TEI_PATH_MAPPING')],
        note=TRUST + 'Quick: documents of 2-3 lines.'),
]

NOT_APPLICABLE = {}

# subject of the fix commit -> (property, what failed)
FIXED = {
    'use the directory of the file list as the default base path': ('C10', 'no base path and pattern {dir}{filename}: the output name was the absolute path of the source'),
    'do not truncate a source file by copying it onto itself': ('C10', 'output path where the source files are: the source files were emptied'),
    'recognise preserved page numbers of loaded documents': ('C07', 'document with existing page elements: their numbers were merged into the surrounding area'),
    'keep the line break at the end of a document': ('C01', 'document ending with a line break element: it was lost'),
    'do not tag the first word of the next line because of the space before it': ('C04', 'complex matcher, value ab cde fghijk, lines "cde" and "xx": xx was tagged because of the space joining the lines'),
    'consider the end of all parts of a value when grouping them': ('C04', 'list value with parts at 0-50, 12-14 and 100-102: the last part was left out as the first two counted as ending at 14'),
    'find the words of a sub annotation after text that changes length in lower case': ('C04', 'reference with a word of several \u0130 characters: the sub tags were placed on the words after the right ones'),
    'use the position within the whole text for parts found in long text': ('C05', 'value in two parts in text longer than 1000 characters: the first part was reported at a position of other text'),
    'do not start a new element for an ignored sub tag': ('C02', 'tags b-ref with sub tag b-other, then i-ref: the ignored sub tag started a second bibl element'),
    'keep the sub tag after a line break within the sub element': ('C02', '<bibl><author>A<lb/>b</author></bibl>: the second word lost its sub tag on reload'),
    'do not repeat the tokens of previous lines when removing untagged tokens': ('C13', 'two tagged lines: the words of the first line were written twice after removing untagged words'),
    'recognise and keep line breaks in documents with a TEI namespace': ('C01', 'document in the TEI namespace with a line break: the line break was lost or turned into other elements'),
    'pass --max-line-number-gap on to the line number annotator': ('C08', '--max-line-number-gap had no effect'),
    'parse --min-line-number-ratio as a number': ('C08', '--min-line-number-ratio 0.5 failed comparing a string with a number'),
    'do not continue a group of sub tags in the next element': ('C13', 'an affiliation without address after one ending with a country: all its words were put into an address'),
    'restore the original tags after annotating sub tags only': ('C13', 'sub tag only annotation changed the main tags'),
    'replace the preserved tags of all tokens of a line': ('C13', 'two words of a line with a preserved replaced tag: only the first was replaced'),
    'keep the settings of the selected sub fields': ('C14', 'selecting sub fields dropped their settings from the mapping'),
    'apply the document checks to documents without target annotations': ('C12', 'document without any target value passed the required field check'),
    'keep the character after a part extracted by a regular expression': ('C16', 'extraction regular expression matching twice: the character after the first part was lost'),
    'report the available mappings for an unrecognised document type': ('C16', 'unrecognised document type raised an unrelated error'),
    'separate the words of adjacent elements after multi line text': ('C16', 'element text with a line feed followed by another element: their words were joined'),
    'do not fail on an empty first or last page element': ('C16', '<fpage/>: exception instead of no page range'),
    'close the element of an end tag after closing the elements within': ('C15', '<a><b><c>x</b>y</a>: b stayed open'),
    'do not close the root element on an unrelated end tag': ('C15', '<a>x</b>y</a>: the text after the end tag was lost'),
    'repair XML files with attributes without value': ('C15', '<a b><c></a>: exception'),
    'keep the case of element names when repairing an XML file': ('C15', '<listBibl><b></listBibl>: written as listbibl'),
    'do not fail to repair documents with an encoding declaration': ('C15', '<?xml version="1.0" encoding="UTF-8"?><a/>: exception'),
    'keep elements within title elements when repairing an XML file': ('C15', '<a><title>x <hi>y</hi></title><b></a>: the hi element became text'),
    'keep the text of CDATA sections when repairing an XML file': ('C15', '<a><b><![CDATA[1 < 2]]></a>: the text was lost'),
    'keep existing elements with a slash in their attribute': ('C03', '<ref target="http://a">x</ref> in the annotated part: the whole document failed (ValueError invalid tag expression)'),
    'keep existing elements with an empty attribute': ('C03', '<ref type="">x</ref> in the annotated part: the whole document failed'),
    'keep the attributes of the container element': ('C01', '<text xml:lang="en">: the attribute of the annotated element was dropped'),
    'keep the text following an element that is replaced with its text': ('C09', '<pub-id pub-id-type="doi">x</pub-id>, 2001: the text after an invalid identifier (and text of its children) was deleted'),
    'keep the order of text when adding an element after a comment or link': ('C09', '<comment>PMID: 12</comment> tail, or a link with two URLs followed by text: the new element was placed after the following text'),
    'keep the order of text when changing elements with child elements': ('C09', '<article-title>Title, <italic>x</italic></article-title>: the comma was moved behind the italic text'),
    'do not fail or lose text for DOI elements without text or with child elements': ('C09', 'an empty DOI element made the whole file fail; children of a DOI following a URL prefix were lost'),
    'only treat a DOI as link if it directly follows the URL prefix': ('C09', 'https://doi.org/10.1/a; see <pub-id pub-id-type="doi">10.1234/b</pub-id>: all of it became one link'),
    'closing character for left double quote': ('C09', 'title \u201cabc\u201d def: the opening quote was moved out of the title'),
    'do not annotate numbers following a comma as PII': ('C09', 'Nature, 2010;463(7283):1234-1245 was marked up as PII'),
    'annotate an identifier found in comments only once': ('C09', 'two citations in a reference, each with a comment with a PMID: both marked up'),
    'do not share the temporary files of a file being processed between workers': ('C11', 'two workers on figure or fulltext files: one removed the temporary source of the other, which then failed'),
    'do not overwrite the source file if the output path is spelled differently': ('C09', '--output-path in/. for source in/a.xml overwrote the source file'),
}
