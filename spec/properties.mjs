// The claimed properties: the source of properties.jsonl, MANIFEST.json and the table in DESIGN.md
// (node bin/gen.mjs rewrites all three).
const UI = 'packages/vlossom/src/';
const C = UI + 'composables/';
const K = UI + 'components/';
const M = 'packages/vlossom-mcp/src/';

export const properties = [
    {
        id: 'P01',
        title: 'Validation verdicts always belong to the current value',
        statement:
            'Whatever order asynchronous rules settle in, the rule failures an input displays and the validity it reports are never those of a superseded value or superseded rules. Once every rule consulted for the current value has settled, the displayed failures are exactly that value\'s failures, each once, and the input, its form and validate() all report the same verdict. A synchronous failure is reported without waiting for the asynchronous rules.',
        over: ['schedules', 'histories'],
        text: 'every interleaving of edits, parent writes, rule replacement, validate/clear and settlement order of pending asynchronous rules, for every input component',
        why: 'unit tests settle each asynchronous rule before the next edit; the property is about overlapping checks, whose number of orders grows exponentially',
        files: [C + 'input-rules/input-rules-composable.ts', C + 'input/input-composable.ts', C + 'input-form/input-form-composable.ts'],
        mechanism: [
            ['each check of the rules supersedes the earlier ones', C + 'input-rules/input-rules-composable.ts'],
            ['rules are re-checked on every value or rule change', C + 'input/input-composable.ts'],
        ],
        observe: ['rendered messages', 'update:valid events', 'validate() results', 'form validity'],
        technique: 'stateless exhaustive exploration of event/promise interleavings on the real mounted components',
    },
    {
        id: 'P02',
        title: 'Helper messages always belong to the current value',
        statement:
            'The helper messages an input displays are those its message list yields for the current value: static and synchronous ones at once, asynchronous ones as soon as they settle, each exactly once. A message computed for an earlier value or an earlier message list is never displayed, whatever order the asynchronous messages settle in.',
        over: ['schedules', 'histories'],
        text: 'every interleaving of edits, parent writes, message-list replacement, clear and settlement order of pending asynchronous messages, for every input component',
        why: 'unit tests settle each asynchronous message before the next edit; overlapping computations are never exercised',
        files: [C + 'input-messages/input-messages-composable.ts', C + 'input/input-composable.ts', K + 'vs-input-wrapper/VsInputWrapper.vue'],
        mechanism: [
            ['each computation of the messages supersedes the earlier ones', C + 'input-messages/input-messages-composable.ts'],
            ['messages are recomputed on every value or list change', C + 'input/input-composable.ts'],
        ],
        observe: ['rendered messages'],
        technique: 'stateless exhaustive exploration of event/promise interleavings on the real mounted components',
    },
    {
        id: 'P03',
        title: 'A form aggregates exactly the fields it currently contains',
        statement:
            'At every moment a form is valid exactly if every field it currently contains is valid, and changed exactly if some field it currently contains has been changed since it was mounted or cleared. Validating answers that validity and, when it is false, reports exactly the ids of the invalid fields present. This holds however fields are mounted, unmounted, renamed, reordered, edited or cleared.',
        over: ['histories', 'inputs'],
        text: 'every sequence of mounting, unmounting, renaming (including exchanging ids), list shifting, editing, clearing and validating, with every kind of field',
        why: 'tests mount a fixed set of fields; registration bugs need histories in which fields leave, return or exchange ids',
        files: [K + 'vs-form/VsForm.vue', UI + 'stores/form-store.ts', C + 'input-form/input-form-composable.ts', C + 'input/input-composable.ts'],
        mechanism: [
            ['fields register their flags under their id and withdraw them when they leave', C + 'input-form/input-form-composable.ts'],
            ['the form aggregates the registered flags', K + 'vs-form/VsForm.vue'],
        ],
        observe: ['form valid/changed', 'validate() results', 'error events'],
        technique: 'stateless exhaustive exploration of field life-cycle histories on the real mounted form',
    },
    {
        id: 'P04',
        title: 'Form-wide validate and clear reach exactly the fields present',
        statement:
            'Validating a form makes every field it currently contains display its failures, and clearing it gives every such field its empty value, hides its failures and makes it unchanged, however often and in whatever order these are requested and however deep or late the fields were mounted. A field displays failures only after it has been changed or validated, and no longer once it has been cleared.',
        over: ['histories', 'inputs'],
        text: 'every sequence of editing, emptying, mounting, unmounting, validating and clearing, including two requests in one tick, for every kind of field',
        why: 'tests issue one request on a fixed form; missed or repeated propagation needs histories with repeated requests and changing fields',
        files: [K + 'vs-form/VsForm.vue', UI + 'stores/form-store.ts', C + 'input-form/input-form-composable.ts', C + 'input/input-composable.ts', C + 'input-messages/input-messages-composable.ts'],
        mechanism: [
            ['requests are propagated to the fields through the form', C + 'input-form/input-form-composable.ts'],
            ['each field decides when its failures are shown', C + 'input/input-composable.ts'],
        ],
        observe: ['rendered messages', 'bound values', 'form changed', 'validate() results'],
        technique: 'stateless exhaustive exploration of request histories on the real mounted form',
    },
    {
        id: 'P05',
        title: 'Bound model and displayed value converge on the last write',
        statement:
            'After any history of user edits, writes by the page and clearing, the bound model of every input equals the last write in its normal form (modifiers applied, number fields numeric, unknown choices dropped, nothing chosen is the empty value), and the control displays exactly that model. Simultaneous writes end with model and control agreeing on one of them, and updates never run in circles.',
        over: ['histories', 'inputs'],
        text: 'every sequence of user edits, parent writes (also two in one tick, one in the tick of an edit, or in place within a bound list), replaced option lists and clear calls, for every input and modifier',
        why: 'tests check one write at a time; disagreement needs a particular succession of edits and writes',
        files: [C + 'input/input-composable.ts', C + 'value-matcher/value-matcher-composable.ts', C + 'string-modifier/string-modifier-composable.ts', C + 'input-option/input-option-composable.ts', K + 'vs-select/composables/select-value-composable.ts', K + 'vs-input/VsInput.vue', K + 'vs-select/VsSelect.vue'],
        mechanism: [
            ['value and model are synchronised in both directions', C + 'input/input-composable.ts'],
            ['values are brought into normal form', C + 'string-modifier/string-modifier-composable.ts'],
        ],
        observe: ['bound model', 'displayed control'],
        technique: 'stateless exhaustive exploration of write histories on the real mounted inputs',
    },
    {
        id: 'P06',
        title: 'A locked input cannot be altered by the user',
        statement:
            'While an input, or the form around it, is disabled or read-only, nothing the user does (typing, clicking, keyboard, dropping files, removing chips, clear buttons, a list that was already open) changes its value, its displayed state or reports a change; the page can still write it. Once every lock is released the input works again.',
        over: ['histories', 'inputs'],
        text: 'every sequence of locking and unlocking (own or form, disabled or read-only), user gestures and parent writes, for every input',
        why: 'tests lock from the start and try one gesture; leaks appear for particular gestures and for locks engaged half-way',
        files: [C + 'input/input-composable.ts', C + 'input-form/input-form-composable.ts', UI + 'stores/form-store.ts', K + 'vs-select/composables/select-value-composable.ts', K + 'vs-file-drop/VsFileDrop.vue'],
        mechanism: [
            ['own and form locks are combined', C + 'input/input-composable.ts'],
            ['gestures are refused while locked', K + 'vs-select/composables/select-value-composable.ts'],
        ],
        observe: ['bound model', 'change events', 'native controls'],
        technique: 'stateless exhaustive exploration of lock and gesture histories on the real mounted inputs',
    },
    {
        id: 'P07',
        title: 'Built-in constraints judge the current value and settings',
        statement:
            'At every moment an input is valid exactly if its current value satisfies its current built-in constraints: required means a value is present (0 and false count as present), minimum and maximum bound the number, length, count or date inclusively, and accepted file types match by type, wildcard or extension. Each violated constraint is reported by one message; with built-in rules switched off none is. A drop of files outside the number limits is refused as a whole.',
        over: ['inputs', 'histories'],
        text: 'every sequence of writes, edits and changes of the settings over boundary values, for every input',
        why: 'tests check single values with fixed settings; the property covers all boundary combinations and settings that change later',
        files: [K + 'vs-input/vs-input-rules.ts', K + 'vs-textarea/vs-textarea-rules.ts', K + 'vs-select/vs-select-rules.ts', K + 'vs-checkbox/vs-checkbox-set-rules.ts', K + 'vs-date-picker/vs-date-picker-rules.ts', K + 'vs-file-drop/vs-file-drop-rules.ts', C + 'input-rules/input-rules-composable.ts'],
        mechanism: [
            ['built-in rules of each input', K + 'vs-input/vs-input-rules.ts'],
            ['rules are combined and re-checked', C + 'input-rules/input-rules-composable.ts'],
        ],
        observe: ['update:valid events', 'validate() results', 'rendered messages', 'bound model after a drop'],
        technique: 'exhaustive exploration of value/setting histories on the real mounted inputs',
    },
    {
        id: 'P08',
        title: 'A guarded change happens exactly if its guard agrees',
        statement:
            'When a checkbox, switch or radio has a change guard, every click asks it once, with the current and the requested value, and the value and the marks on the page change only when the guard agrees. Agreed changes are applied to the value current at that moment, so changes whose guards decide in overlapping order, and writes in between, never undo one another; a refused change leaves no trace.',
        over: ['schedules', 'histories'],
        text: 'every interleaving of clicks, parent writes and guard decisions (agree or refuse, in any order)',
        why: 'tests settle one guard at a time; lost updates need two undecided guards or a write in between',
        files: [K + 'vs-checkbox/VsCheckbox.vue', K + 'vs-switch/VsSwitch.vue', K + 'vs-radio/VsRadio.vue', C + 'value-matcher/value-matcher-composable.ts', C + 'input/input-composable.ts'],
        mechanism: [
            ['the change is computed for the current value', C + 'value-matcher/value-matcher-composable.ts'],
            ['the guard is awaited before the change', K + 'vs-checkbox/VsCheckbox.vue'],
        ],
        observe: ['guard calls', 'bound model', 'marks and native controls'],
        technique: 'stateless exhaustive exploration of click/decision interleavings on the real mounted inputs',
    },
    {
        id: 'P09',
        title: 'Open overlays form one stack and close exactly as asked',
        statement:
            'Modals opened in any container and drawers form one stack in opening order: a key press or emitted event reaches the handlers of the topmost open overlay only, and an event addressed to an id reaches that overlay only. Closing (the last modal of a container, a modal by id, all of a container, Escape, a click beside it or its v-model) removes exactly the modals asked for, and where a close guard is set only after the guard agreed; the returned promise says whether it closed. An overlay\'s close handler runs exactly once, and once closed it is gone from the page and hears nothing more.',
        over: ['histories', 'schedules'],
        text: 'every sequence of opening and closing modals and drawers in several containers, guard decisions, key presses, emitted events and unmounting',
        why: 'tests open and close one overlay at a time; wrong victims and leaked handlers need several overlays in a particular order',
        files: [UI + 'stores/overlay-callback-store.ts', UI + 'stores/overlay-container-store.ts', C + 'overlay-callback/overlay-callback-composable.ts', UI + 'plugins/modal-plugin/modal-plugin.ts', K + 'vs-modal/VsModal.vue', K + 'vs-drawer/VsDrawer.vue'],
        mechanism: [
            ['stack of open overlays and their callbacks', UI + 'stores/overlay-callback-store.ts'],
            ['closing by container, id or all', UI + 'plugins/modal-plugin/modal-plugin.ts'],
        ],
        observe: ['modals on the page', 'handler calls', 'results of close'],
        technique: 'stateless exhaustive exploration of open/close/guard histories on the real mounted overlays',
    },
    {
        id: 'P10',
        title: 'Every dialog is answered once, with its own answer',
        statement:
            'An alert, confirm or prompt returns a promise that settles exactly once, with the answer given in that dialog: the alert with nothing, the confirm with true for OK or Enter and false for any other way of closing it, the prompt with the typed value for OK or Enter and null for any other way. A prompt whose value fails its rules stays open. However dialogs are stacked, answered, closed from outside or left fading out, no dialog is left unanswered or takes the answer of another.',
        over: ['histories', 'schedules'],
        text: 'every sequence of opening several dialogs, typing, pressing their buttons, keys, closing and clearing from outside, also during the closing animation',
        why: 'tests answer one dialog at a time; swapped or missing answers need stacked dialogs',
        files: [UI + 'plugins/alert-plugin/alert-plugin.ts', UI + 'plugins/confirm-plugin/confirm-plugin.ts', UI + 'plugins/prompt-plugin/prompt-plugin.ts', UI + 'plugins/modal-plugin/modal-plugin.ts', UI + 'stores/overlay-callback-store.ts'],
        mechanism: [
            ['dialogs settle through their callbacks', UI + 'plugins/confirm-plugin/confirm-plugin.ts'],
            ['the value of the prompt is checked before it is answered', UI + 'plugins/prompt-plugin/prompt-plugin.ts'],
        ],
        observe: ['settlement of the returned promises', 'dialogs on the page'],
        technique: 'stateless exhaustive exploration of dialog histories on the real mounted dialogs',
    },
    {
        id: 'P11',
        title: 'A toast appears once in its place and lives its lifetime',
        statement:
            'Every toast asked for appears exactly once, in its container, at its placement and in the order asked for, with the content, colour and console output of its severity. It stays until its time is up (the pointer resting on it holds it), its close button is pressed, or it is removed or its container cleared; then exactly it disappears and every other toast and modal stays. Containers created later or replaced work alike.',
        over: ['histories', 'inputs'],
        text: 'every sequence of showing toasts of differing lifetimes and placements, passing time, pointer enter/leave, closing, removing, clearing, and containers coming and going',
        why: 'tests show a single toast; lost, doubled or wrongly removed toasts need several with overlapping lifetimes',
        files: [UI + 'plugins/toast-plugin/toast-plugin.ts', UI + 'stores/overlay-container-store.ts', K + 'vs-toast/VsToast.vue'],
        mechanism: [
            ['toasts are kept per container', UI + 'stores/container-store.ts'],
            ['severity presets', UI + 'plugins/toast-plugin/toast-plugin.ts'],
        ],
        observe: ['toasts on the page', 'console calls'],
        technique: 'stateless exhaustive exploration of toast histories under a virtual clock',
    },
    {
        id: 'P12',
        title: 'An MCP answer is independent of other requests and past failures',
        statement:
            'The documentation server answers a request exactly as a server asked nothing else would, whatever other requests it has served, is serving at the same time or has seen fail, and in whatever order the repository answers its reads. A request whose own reads fail says so; it never reports existing data as missing, and the same request answers correctly once the reads succeed again. Names and versions are recognised however they are spelled.',
        over: ['histories', 'schedules', 'inputs'],
        text: 'every pair and triple of requests, every single failing read of every request, and every order of answering the reads of two concurrent requests',
        why: 'the tests use the live repository, one request at a time; the property is about caches shared by requests',
        files: [M + 'services/github-registry-service.ts', M + 'services/github-reference-service.ts', M + 'services/github-client.ts', M + 'internal/version/version-service.ts'],
        mechanism: [
            ['per-version caches of indexes, components and documents', M + 'services/github-registry-service.ts'],
            ['failed reads leave the caches', M + 'services/github-client.ts'],
        ],
        observe: ['tool results and resource contents of the server over its protocol'],
        technique: 'exhaustive exploration of request sequences, read failures and answer orders on the real server over a simulated repository',
    },
    {
        id: 'P13',
        title: 'MCP answers describe the library version asked about',
        statement:
            'Every answer about components, directives, composables, options, tokens or code is drawn from the sources of the version named in the request or pinned by its package file, and says which version and source that is; without one it is drawn from the current sources. An entry is reported as supported, unsupported or unknown exactly as its first available version compares with the requested one. A version that cannot be found or understood is reported, not silently replaced.',
        over: ['inputs'],
        text: 'every combination of request, way of naming the version (release, tag, range, package file, absent, malformed), set of releases, and first available version',
        why: 'version order, ranges, pre-releases and tag spellings combine into far more cases than the tests list',
        files: [M + 'internal/version/version-service.ts', M + 'services/github-registry-service.ts', M + 'internal/reference/reference-service.ts', M + 'internal/types.ts'],
        mechanism: [
            ['the version context is resolved to a repository reference', M + 'services/github-registry-service.ts'],
            ['version support compares release numbers', M + 'internal/version/version-service.ts'],
        ],
        observe: ['tool results of the server over its protocol', 'references read from the simulated repository'],
        technique: 'exhaustive enumeration of version situations on the real server over a simulated repository with distinguishable releases',
    },
    {
        id: 'P14',
        title: 'MCP references reproduce the documented API exactly',
        statement:
            'A reference for a component, directive, composable, plugin option, token or release contains exactly what its documentation declares: every prop, slot, event, method, StyleSet key, token value and release note, once, in order, with its type, default, description and whether it is required, and nothing that is not documented. Only the requested sections are included. Lists and counts agree with the individual references.',
        over: ['inputs'],
        text: 'every document built from a small grammar of headings, tables, cells, interfaces, style sheets and release notes, and every combination of requested sections',
        why: 'the tests check a few live documents; parsing errors need particular rows, orders or escapes',
        files: [M + 'services/github-registry-service.ts', M + 'services/github-reference-service.ts', M + 'internal/reference/reference-service.ts', M + 'internal/reference/reference-data.ts', M + 'resources/core-resources.ts'],
        mechanism: [
            ['tables and interfaces are parsed from the documents', M + 'services/github-registry-service.ts'],
            ['sections are selected by request', M + 'internal/reference/reference-service.ts'],
        ],
        observe: ['tool results and resource contents of the server over its protocol'],
        technique: 'exhaustive enumeration of a bounded document grammar on the real server, compared with the description the documents were written from',
    },
    {
        id: 'P15',
        title: 'MCP validation reports exactly the misuse that is there',
        statement:
            'Validating a component file, snippet, StyleSet or project setup reports every unknown, unavailable or misused component, prop, required prop, event, model, slot, StyleSet key, variable, style and setup step once, with its severity, its name and the line it is written on, and reports nothing about correct code. Native and third-party elements that the library covers are errors, warnings or ignored as the chosen mode says. Code is called valid exactly if no error is reported, and the summary counts what is reported.',
        over: ['inputs'],
        text: 'every document of a bounded grammar: elements with every pair of attributes, slot nestings, imports, style blocks, StyleSets, package and setup files, modes and versions',
        why: 'tests validate a few fixed snippets; missed and false reports depend on combinations of attributes, layout and position',
        files: [M + 'internal/validation/sfc-validator.ts', M + 'internal/validation/style-set-validator.ts', M + 'internal/validation/project-setup-validator.ts', M + 'internal/validation/vlossom-first-validator.ts', M + 'internal/validation/validate-vlossom-usage.ts'],
        mechanism: [
            ['tags and attributes are extracted from the template', M + 'internal/validation/sfc-validator.ts'],
            ['issues are collected and summarised', M + 'internal/validation/validate-vlossom-usage.ts'],
        ],
        observe: ['results of the validation tool of the server over its protocol'],
        technique: 'exhaustive enumeration of a bounded document grammar on the real server, compared with the structure the documents were written from',
    },
    {
        id: 'P16',
        title: 'Scaffolded code uses what was asked for and validates',
        statement:
            'Code scaffolded by the documentation server uses every component, feature and option that was asked for, declares what it binds, imports what it uses and nothing else, and passes the server\'s own validation for the same version. What cannot be scaffolded (unknown names, missing input, unsupported versions) is refused with the reason instead of producing code.',
        over: ['inputs'],
        text: 'every request built from a bounded set of components of different shapes, intents, options, versions and StyleSets',
        why: 'the tests scaffold a few components; failures need particular combinations of props, slots, models and options',
        files: [M + 'tools/scaffold-vlossom-code.ts', M + 'internal/scaffold/component-usage-scaffolder.ts', M + 'internal/scaffold/style-set-scaffolder.ts', M + 'internal/scaffold/project-setup-scaffolder.ts', M + 'internal/validation/validate-vlossom-usage.ts', M + 'utils/naming.ts'],
        mechanism: [
            ['the request is turned into a template, script and style', M + 'tools/scaffold-vlossom-code.ts'],
            ['the result is validated before it is returned', M + 'internal/validation/validate-vlossom-usage.ts'],
        ],
        observe: ['results of the scaffolding and validation tools of the server over its protocol'],
        technique: 'exhaustive enumeration of a bounded set of requests on the real server; the code is read back and validated by the same server',
    },
    {
        id: 'P17',
        title: 'A search returns the entries that match, best first',
        statement:
            'A search returns exactly the registered entries whose name, other names or description match the query, each once, the exact name first, within the requested target and limit, and says how many there are. Every registered entry can be found by its name however it is spelled, and an empty query lists the registry. Every result carries the identity, version and description its reference has.',
        over: ['inputs'],
        text: 'every query, target, limit and intent of a bounded set over registries with overlapping names and descriptions',
        why: 'the tests search for a few fixed words; ranking and limits interact with targets and synonyms',
        files: [M + 'tools/search-vlossom.ts', M + 'internal/search/component-search-service.ts', M + 'internal/search/coverage-resolver.ts', M + 'services/github-registry-service.ts', M + 'data/search-synonyms.ts', M + 'utils/naming.ts'],
        mechanism: [
            ['entries are matched and scored', M + 'internal/search/component-search-service.ts'],
            ['results are cut to the limit', M + 'tools/search-vlossom.ts'],
        ],
        observe: ['results of the search and reference tools of the server over its protocol'],
        technique: 'exhaustive enumeration of a bounded set of queries on the real server over a simulated repository',
    },
    {
        id: 'P18',
        title: 'Every MCP answer carries the account of its session',
        statement:
            'Every answer of the documentation server carries the account of the session: the steps made since the session began, in order, each with its label, summary, parent and duration, and each tool used with how often. A new search begins a new account and a long enough pause begins a new session, exactly at the configured time. The text form of an answer says the same as its data.',
        over: ['histories'],
        text: 'every sequence of tool calls, refused calls and pauses around the session timeout, up to the depth',
        why: 'the tests make one or two calls; the account depends on the whole history and on time',
        files: [M + 'services/meta-registry.ts', M + 'utils/mcp-response.ts', M + 'utils/register-tool.ts', M + 'types/meta.ts'],
        mechanism: [
            ['calls are recorded as steps of a session', M + 'services/meta-registry.ts'],
            ['the account is attached to every answer', M + 'utils/register-tool.ts'],
        ],
        observe: ['metadata, data and text of tool results of the server over its protocol'],
        technique: 'stateless exhaustive exploration of tool call sequences and pauses on the real server under a virtual clock',
    },
    {
        id: 'P19',
        title: 'A table shows the matching rows in order, one page at a time',
        statement:
            'The rows a table shows are exactly the given items that match the search (as text or expression, with or without case, leaving out unsearched columns), in the chosen order with equal rows in their given order, cut to the current page; each cell shows its column\'s value of that item. The reported page items, matching items, page, page size, totals and search results always agree with the rows shown. A page stays while it exists; when it disappears the table shows another that does.',
        over: ['histories', 'inputs'],
        text: 'every sequence of searches, search modes, orderings, page moves, page size choices, and replaced or edited items and columns, with client and server paging',
        why: 'tests exercise searching, ordering and paging separately; the property is about their composition while the data changes',
        files: [K + 'vs-table/composables/table-composable.ts', K + 'vs-table/composables/table-sort-composable.ts', K + 'vs-table/composables/table-search-composable.ts', K + 'vs-table/composables/table-pagination-composable.ts', K + 'vs-table/models/table-cell-builder.ts', UI + 'utils/compare-util.ts'],
        mechanism: [
            ['cells are built from items and columns', K + 'vs-table/models/table-cell-builder.ts'],
            ['rows are filtered, ordered and cut to a page', K + 'vs-table/composables/table-composable.ts'],
            ['values are compared', UI + 'utils/compare-util.ts'],
        ],
        observe: ['rendered header, rows, page buttons and totals', 'update:pagedItems, update:totalItems, update:page, update:pageSize, paginate and search events'],
        technique: 'stateless exhaustive exploration of user and parent actions on a real mounted table against a reference pipeline',
    },
    {
        id: 'P20',
        title: 'Table rows are selected and expanded exactly as asked',
        statement:
            'A row of a table is shown as selected exactly if its item is in the bound selection; ticking a row changes that row only, and the header selects every selectable item or, when all are selected, none. The header is ticked exactly if every selectable item is selected, whatever pages, order, search or items are shown. A row is expanded exactly if it was last asked to be, only selectable and expandable rows can be ticked and expanded, and each row is asked about with its own position; each action reports its row once.',
        over: ['histories', 'inputs'],
        text: 'every sequence of ticking, header ticking, expanding, clicking, ordering, paging, searching, replacing items and writing the selection, with several rules about which rows take part',
        why: 'tests tick rows of a fixed table; failures need ordering, paging or new items between the ticks',
        files: [K + 'vs-table/composables/table-select-composable.ts', K + 'vs-table/composables/table-expand-composable.ts', K + 'vs-table/composables/table-composable.ts', K + 'vs-table/models/table-model.ts', C + 'value-matcher/value-matcher-composable.ts'],
        mechanism: [
            ['the selection and the header state', K + 'vs-table/composables/table-select-composable.ts'],
            ['which rows are expanded', K + 'vs-table/composables/table-expand-composable.ts'],
        ],
        observe: ['rendered boxes, highlighted rows and expanded details', 'update:selectedItems, select-row, expand-row, click-row and click-cell events'],
        technique: 'stateless exhaustive exploration of user and parent actions on a real mounted table against a reference selection',
    },
    {
        id: 'P21',
        title: 'A select offers, marks and chooses exactly its options',
        statement:
            'An open list shows exactly the options matching the search, in their given or grouped order, each marked as chosen exactly if its value is in the bound value, and options that are not allowed cannot be chosen. Choosing by pointer or keyboard, removing a chip, clearing and select-all change exactly the options asked for: select-all takes every allowed option shown or, when all of them are chosen, drops exactly those. Arrow keys, Home and End move the highlight among what can be chosen, Enter and Space choose it, Escape and Tab close, and opening and closing are each reported once.',
        over: ['histories', 'inputs'],
        text: 'every sequence of opening, closing, searching, pointer and key choices, removing, clearing, selecting all, writing the value and replacing options, for single and multiple, grouped and disabled lists',
        why: 'tests press one key or click one option in a fresh list; failures need a search, a new list or a reopening in between',
        files: [
            K + 'vs-select/composables/select-value-composable.ts',
            K + 'vs-select/composables/select-search-composable.ts',
            K + 'vs-select/composables/select-keyboard-composable.ts',
            C + 'focusable/focusable-composable.ts',
            C + 'option-list/option-list-composable.ts',
            C + 'option-label-value/option-label-value-composable.ts',
        ],
        mechanism: [
            ['which options are chosen, and select-all', K + 'vs-select/composables/select-value-composable.ts'],
            ['which options the search leaves', K + 'vs-select/composables/select-search-composable.ts'],
            ['the highlight', C + 'focusable/focusable-composable.ts'],
        ],
        observe: ['rendered options, marks, highlight and chips', 'update:modelValue, open and close events'],
        technique: 'stateless exhaustive exploration of user and parent actions on a real mounted select against a reference list',
    },
    {
        id: 'P22',
        title: 'Tabs, steps and page buttons keep exactly one current entry',
        statement:
            'Of the entries of tabs, steps or page buttons exactly one is current: the one last chosen by click, key, control, method or bound index, and none for an index outside the list. Entries that are not allowed are never chosen by the user; arrows, Home, End and the controls go to the nearest allowed entry in their direction and stay where there is none. Every change is reported once with the new index, page buttons are the requested number of consecutive pages around the current one, and a view shows exactly the panel of its index.',
        over: ['histories', 'inputs'],
        text: 'every sequence of clicks, keys, controls, methods, bound indexes, replaced entries and changed permissions, for every blocking pattern listed and every pair of page counts and numbers shown',
        why: 'tests take one step from a fresh list; failures need blocked neighbours, edges, shrinking lists or an index bound in between',
        files: [C + 'list-index-selector/list-index-selector-composable.ts', K + 'vs-tabs/VsTabs.vue', K + 'vs-steps/VsSteps.vue', K + 'vs-pagination/VsPagination.vue', K + 'vs-index-view/VsIndexView.vue'],
        mechanism: [
            ['the current index and the next allowed one', C + 'list-index-selector/list-index-selector-composable.ts'],
            ['the window of pages', K + 'vs-pagination/VsPagination.vue'],
        ],
        observe: ['rendered current entry, focus and panel', 'update:modelValue, change and page events'],
        technique: 'stateless exhaustive exploration of user and parent actions on real mounted components against a reference index',
    },
    {
        id: 'P23',
        title: 'Colours, style sets, sizes and theme show by fixed precedence',
        statement:
            'A component shows the colour scheme it is given, else the one the application sets for that component, else the application default; "none" shows the plain one. Its style is its built-in base, overridden part by part by the style set given to it or registered under the name given to it, overridden by sizes given as props, and nothing the application passed in is altered. The theme starts from the saved one, else from the system or the option, is shown on the page and saved when toggled, and a change of any of these reaches components already on the page.',
        over: ['histories', 'inputs'],
        text: 'every sequence of changing scheme, style set, size and state props, application-wide schemes and registered sets on all components together, and every start of the theme',
        why: 'tests mount one component with one setting; failures need a combination of settings or a change after mounting',
        files: [C + 'color-scheme/color-scheme-composable.ts', C + 'style-set/style-set-composable.ts', C + 'size-class/size-class-composable.ts', C + 'state-class/state-class-composable.ts', UI + 'stores/options-store.ts', UI + 'framework/vlossom-class.ts', UI + 'framework/vlossom-plugin.ts'],
        mechanism: [
            ['the colour scheme of a component', C + 'color-scheme/color-scheme-composable.ts'],
            ['merging of style sets', C + 'style-set/style-set-composable.ts'],
            ['theme and application-wide options', UI + 'framework/vlossom-class.ts'],
        ],
        observe: ['rendered classes, style attributes and variables', 'the saved theme and the class of the page'],
        technique: 'stateless exhaustive exploration of setting changes on all components mounted together, compared with the rules of precedence',
    },
    {
        id: 'P24',
        title: 'A container keeps exactly the room its layout takes',
        statement:
            'A container of a layout keeps free, on each side, exactly the height of the positioned header or footer plus the size of the open pushing drawer there, and its drawers keep clear of header and footer. Only parts that opted in and are on the page count: closing, hiding, replacing, resizing or repositioning a part, or opting out, changes the room at once and gives it back. Parts outside a layout, inside another part, or in a layout of their own neither take nor keep room.',
        over: ['histories', 'inputs'],
        text: 'every sequence of showing, hiding, replacing, opening, resizing, repositioning and opting in or out header, footer, drawers and container, nested and wrapped',
        why: 'tests set the room once and look; failures need a part that leaves, moves or changes size afterwards',
        files: [UI + 'stores/layout-store.ts', C + 'layout-child/layout-child-composable.ts', K + 'vs-container/VsContainer.vue', K + 'vs-header/VsHeader.vue', K + 'vs-footer/VsFooter.vue', K + 'vs-drawer/VsDrawer.vue'],
        mechanism: [
            ['the room each part takes', UI + 'stores/layout-store.ts'],
            ['which parts belong to a layout', C + 'layout-child/layout-child-composable.ts'],
        ],
        observe: ['paddings and offsets of containers and drawers'],
        technique: 'stateless exhaustive exploration of changes to the parts of a real layout against a reference sum',
    },
    {
        id: 'P25',
        title: 'A floating panel sits where it was asked to and follows its target',
        statement:
            'A tooltip, select list or floating panel stands on the requested side of its target, aligned and spaced as requested, or on the opposite side exactly when the requested one lacks room and the opposite has more. As long as it is shown it follows every change of target, panel, window and scroll position, and takes the width of the target if asked to. It appears and disappears after its delays exactly while it is wanted (a tooltip while hovered, focused or clicked open and not disabled) and leaves nothing behind.',
        over: ['histories', 'inputs', 'schedules'],
        text: 'every geometry of a grid of target, panel and window sizes with every side, alignment and margin; every sequence of moves, scrolls, resizes, showing, hiding and pausing; every sequence of pointer, focus, click and key gestures on tooltips under a virtual clock',
        why: 'tests place one panel once; failures need a panel that moved, was hidden early, or was hovered and left at the wrong moment',
        files: [C + 'positioning/positioning-composable.ts', K + 'vs-floating/VsFloating.vue', K + 'vs-tooltip/VsTooltip.vue'],
        mechanism: [
            ['the place of a panel and following its target', C + 'positioning/positioning-composable.ts'],
            ['when a tooltip is wanted', K + 'vs-tooltip/VsTooltip.vue'],
        ],
        observe: ['style of the floating panel', 'whether and when it is on the page', 'listeners left on the page'],
        technique: 'exhaustive enumeration of a grid of geometries and stateless exhaustive exploration of gestures and pauses under a virtual clock',
    },
    {
        id: 'P26',
        title: 'Sizes and columns apply as given at every breakpoint',
        statement:
            'A component given a width, height, gap or columns, plain or per breakpoint, takes exactly these: plain numbers are pixels, other lengths are taken as written, and a breakpoint that is not named keeps what the next smaller one has. A size that is changed applies at once, and one that is no longer given no longer applies. Table column widths, modal sizes and the sizes shown for files follow the same notations.',
        over: ['inputs', 'histories'],
        text: 'every component that takes a size with every notation listed, every choice of named breakpoints, and every sequence of changing them',
        why: 'tests render one notation per component; failures need an unusual notation, a gap between breakpoints or a size that is taken back',
        files: [K + 'vs-responsive/composables/responsive-composable.ts', UI + 'utils/string-util.ts', UI + 'utils/object-util.ts', K + 'vs-responsive/VsResponsive.vue', K + 'vs-grid/VsGrid.vue', K + 'vs-modal/VsModalNode.vue'],
        mechanism: [
            ['widths and columns per breakpoint', K + 'vs-responsive/composables/responsive-composable.ts'],
            ['the notation of lengths', UI + 'utils/string-util.ts'],
        ],
        observe: ['rendered classes, style attributes and variables', 'rendered file sizes'],
        technique: 'exhaustive enumeration of notations and stateless exhaustive exploration of changes on the real mounted components against a reference reading',
    },
    {
        id: 'P27',
        title: 'Scroll locks and scroll shadows are exact and leave no trace',
        statement:
            'A locked container does not scroll as long as anybody holds its lock, and afterwards has exactly the styles it had before. A scroll shadow is on an element exactly while it is switched on and the element scrolls, and neither its coming nor its going alters the styles of the element itself. Visibility is measured in the nearest surrounding box that scrolls.',
        over: ['histories', 'inputs'],
        text: 'every sequence of locking, unlocking, frames passing and switching shadows, and every combination of overflow settings, content sizes, own styles and touch abilities',
        why: 'tests lock and unlock once; failures need two holders, a lock taken again within a frame, or a shadow switched several times',
        files: [C + 'scroll-lock/scroll-lock-composable.ts', UI + 'directives/vs-scroll-shadow/scroll-shadow-directive.ts', UI + 'utils/dom-util.ts', UI + 'utils/device-util.ts'],
        mechanism: [
            ['locking and giving back', C + 'scroll-lock/scroll-lock-composable.ts'],
            ['which elements scroll', UI + 'utils/dom-util.ts'],
        ],
        observe: ['style attributes and classes of containers', 'the root the visibility is measured in'],
        technique: 'exhaustive enumeration of style combinations and stateless exhaustive exploration of lock and switch histories on real elements',
    },
    {
        id: 'P28',
        title: 'Content in overlays lives in the application that shows it',
        statement:
            'Whatever an application shows in a modal, alert, confirm, prompt or toast behaves as if it stood in the application itself: it gets its props, finds the components, directives, provided values and global properties the application has, also those added, changed or removed later, and its errors reach the error handler the application has at that moment. Installing registers exactly the components given and makes one place for overlays however often it is done. Asking for the library before it is created fails.',
        over: ['histories', 'inputs'],
        text: 'every sequence of opening overlays and of registering, providing, setting, removing and replacing what the application offers; every set of given components and every order of creating and installing',
        why: 'no test shows application content in an overlay; failures need something registered after the overlay host was made, or a handler replaced',
        files: [UI + 'framework/overlay-helper.ts', UI + 'framework/vlossom-plugin.ts', UI + 'framework/OverlayWrapper.vue', K + 'vs-render/VsRender.vue', UI + 'plugins/modal-plugin/modal-plugin.ts'],
        mechanism: [
            ['what overlays inherit', UI + 'framework/overlay-helper.ts'],
            ['what is installed', UI + 'framework/vlossom-plugin.ts'],
        ],
        observe: ['what a probe component finds in the overlay', 'which handler hears an error', 'the components registered'],
        technique: 'stateless exhaustive exploration of registration and opening histories with a probe component in the real overlays',
    },
    {
        id: 'P29',
        title: 'Focus stays in the overlay that locks it and returns afterwards',
        statement:
            'Opening a modal or drawer moves the focus into it. As long as it locks the focus, Tab and Shift+Tab go through exactly what can be focused in it, in order and around, whatever appears, disappears, is hidden or disabled there, and never leave it. Closing the overlay that has the focus returns it to the element that had it before; closing another one, or one below, does not move it.',
        over: ['histories'],
        text: 'every sequence of Tab, Shift+Tab, opening, closing, switching the lock and changing the content of one to three modals, drawers and traps',
        why: 'tests press Tab once at either end of fixed content; failures need content that changed, an edge that cannot be focused, or overlays closed out of order',
        files: [K + 'vs-focus-trap/VsFocusTrap.vue', K + 'vs-modal/VsModalNode.vue', K + 'vs-drawer/VsDrawer.vue', C + 'overlay-callback/overlay-callback-composable.ts', UI + 'stores/overlay-callback-store.ts'],
        mechanism: [
            ['taking Tab at both ends, taking and returning the focus', K + 'vs-focus-trap/VsFocusTrap.vue'],
            ['opening and closing of a drawer takes and returns the focus', K + 'vs-drawer/VsDrawer.vue'],
        ],
        observe: ['the focused element after every step'],
        technique: 'stateless exhaustive exploration of key presses, overlay and content changes against a reference model of the focus',
    },
    {
        id: 'P30',
        title: 'Inputs report every change of their value and state exactly once',
        statement:
            'Every change of an input value by the user, the page or clearing is reported exactly once with the new value, and writing an equal value or setting up the first one reports no change. An input reports that it has turned changed or unchanged, and valid or invalid, exactly when it has, and calling its validation answers accordingly. Gaining and losing the focus are reported once each.',
        over: ['inputs', 'histories'],
        text: 'every sequence of user entries, writes by the page, clearing, validating, rule and focus changes on every kind of input in its variants',
        why: 'tests look at one report after one action; failures are doubled, missing or late reports that need a write of an equal value, a clear, or a rule change after an entry',
        files: [C + 'input/input-composable.ts', C + 'input-rules/input-rules-composable.ts', C + 'input-messages/input-messages-composable.ts', C + 'value-matcher/value-matcher-composable.ts', K + 'vs-input/VsInput.vue', K + 'vs-select/VsSelect.vue'],
        mechanism: [
            ['watching the value and deriving changed, valid and the reports', C + 'input/input-composable.ts'],
            ['matching of checked and unchecked values', C + 'value-matcher/value-matcher-composable.ts'],
        ],
        observe: ['the events of the component after every step', 'the answer of validate()'],
        technique: 'stateless exhaustive exploration of entries, writes, clearing, validation and focus changes against a reference list of reports',
    },
    {
        id: 'P31',
        title: 'Folded, copied, loaded and searched content shows the last request',
        statement:
            'An accordion shows its content exactly while it is open, changes once for every request by title, key, method or model unless it is disabled, and leaves keys pressed inside its content alone; a text wrap copies exactly the text it shows, marks that until two seconds after the last copy, and opens only web links. An image shows its current source, its substitute once that has failed, and a sign when nothing is left. A search field reports its text once after it has rested, and matches by its current text and modes at any time.',
        over: ['histories', 'schedules', 'inputs'],
        text: 'every sequence of clicks, keys, calls, writes, pauses and changed sources and texts, with copies and loads succeeding or failing in every order',
        why: 'tests perform one action per component; failures need a text changed after the first copy, a second copy within the pause, a key pressed inside, or a substitute given late',
        files: [K + 'vs-accordion/VsAccordion.vue', K + 'vs-expandable/VsExpandable.vue', K + 'vs-text-wrap/VsTextWrap.vue', K + 'vs-image/VsImage.vue', K + 'vs-search-input/VsSearchInput.vue', 'packages/vlossom/src/utils/clipboard-util.ts', 'packages/vlossom/src/utils/function-util.ts'],
        mechanism: [
            ['copying and its outcome', 'packages/vlossom/src/utils/clipboard-util.ts'],
            ['the stages of loading an image', K + 'vs-image/VsImage.vue'],
            ['reporting after a rest, and matching', K + 'vs-search-input/VsSearchInput.vue'],
        ],
        observe: ['rendered content', 'reported events', 'what is written to the clipboard', 'opened windows', 'match() answers'],
        technique: 'stateless exhaustive exploration of requests, pauses and outcomes against the state last asked for',
    },
    {
        id: 'P32',
        title: 'An input shows its label, marks, messages, state and locks as set',
        statement:
            'An input shows its label with a mark while it is required, its messages, name, placeholder and identity as they are set, and hides its label, its messages or itself when asked to. It shows the error state exactly while it displays failures, else the state it is given, and is marked disabled or read-only exactly while it or its form is. A failed validation shakes it for 0.6 seconds.',
        over: ['histories', 'schedules', 'inputs'],
        text: 'every sequence of changed settings, values, form locks, validations and pauses, for each of the ten inputs',
        why: 'tests set one attribute at mount; failures need a setting changed later, a failure that appears or is cleared while a state is given, a form that unlocks, or a second failed validation',
        files: ['packages/vlossom/src/composables/input/input-composable.ts', 'packages/vlossom/src/composables/state-class/state-class-composable.ts', 'packages/vlossom/src/composables/input-form/input-form-composable.ts', K + 'vs-input-wrapper/VsInputWrapper.vue', 'packages/vlossom/src/props/input-props.ts'],
        mechanism: [
            ['the state shown and the shake', 'packages/vlossom/src/composables/state-class/state-class-composable.ts'],
            ['locks, identity and messages of an input', 'packages/vlossom/src/composables/input/input-composable.ts'],
            ['label, mark and messages', K + 'vs-input-wrapper/VsInputWrapper.vue'],
        ],
        observe: ['rendered label, mark and messages', 'attributes and classes of the control', 'the time for which it shakes'],
        technique: 'stateless exhaustive exploration of settings, locks, validations and pauses against the settings last given',
    },
];

export const notApplicable = [];
