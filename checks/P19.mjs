// The table's pipeline: columns -> cells -> search -> order -> page, against a reference pipeline.
import { all, click, json, text, typeInto } from '../lib/kit.mjs';
import { optionsOf } from '../lib/inputs.mjs';

const day = (d) => new Date(Date.UTC(2024, 0, d));
const DATA = (dated) => withRows(dated ? row : (...v) => (({ on, ...rest }) => rest)(row(...v)));
const row = (id, name, qty, on, ok, city, zip) => ({ id, name, qty, on: day(on), ok, at: { city, zip } });
const withRows = (row) => ({
    five: [
        row('r1', 'mango', 2, 9, true, 'Oslo', '880'),
        row('r2', 'Apple', 10, 3, false, 'Bern', '770'),
        row('r3', 'fig(dry)', null, 7, true, 'Rome', '990'),
        row('r4', 'banana', 2, 1, false, 'Oslo', '660'),
        row('r5', 'cherry', 5, 5, true, 'Cork', '550'),
    ],
    three: [row('s1', 'pear', 1, 2, true, 'Lima', '440'), row('s2', 'mango', null, 4, false, 'Bonn', '330'), row('s3', 'Anise', 4, 6, true, 'Kiev', '220')],
    one: [row('t1', 'anon', 6, 8, false, 'Graz', '110')],
    zeros: [row('z1', 'nil', 0, 2, false, 'Ede', '880'), row('z2', 'one', 1, 4, true, 'Ulm', '770'), row('z3', '', 20, 6, false, 'Bath', '881'), row('z4', 'two', null, 6, true, 'Bray', '88')],
    none: [],
});

const at = (item, key) => key.split('.').reduce((v, k) => (v === null || v === undefined ? v : v[k]), item);

const COLUMNS = {
    plain: () => [
        { key: 'id', label: 'Id' },
        { key: 'name', label: 'Name', sortable: true },
        { key: 'qty', label: 'Quantity', sortable: true },
    ],
    typed: () => [
        { key: 'id', label: 'Id' },
        { key: 'on', label: 'On', sortable: true, transform: (v) => 'day ' + v.getUTCDate() },
        { key: 'ok', label: 'Ok', sortable: true },
        { key: 'at.city', label: 'City', sortable: true },
    ],
    derived: () => [
        { key: 'name', label: 'Fruit', sortable: true, sortBy: 'at.zip' },
        { key: 'at.zip', label: 'Zip', skipSearch: true, sortable: true },
        { key: 'qty', label: 'Amount', transform: (v, item) => `${v} of ${item.id}`, sortable: true },
        { key: 'gone.away', label: 'Missing' },
    ],
    searched: () => [
        { key: 'id', label: 'Id', skipSearch: true },
        { key: 'name', label: 'Name', sortable: true },
    ],
    mixed: () => [
        { key: 'id', label: 'Id', sortable: true, skipSearch: true },
        { key: 'at.zip', label: 'Zip', sortable: true, skipSearch: true, transform: (v) => 'zip ' + v },
        { key: 'qty', label: 'Quantity', sortable: true },
        { key: 'ok', label: 'Ok' },
    ],
    words: () => ['name', 'at.city', 'id'],
    none: () => [],
};

const TEXTS = { an: 'an', AN: 'AN', none: 'zzz', clear: '', dot: 'a.g', broken: '(', id: 'r4', alt: 'pea|che', wide: 'o', zero: '0', no: 'false', zip: '88', own: 'z' };
const ALL = 1e9; // stands for "all" in scenario descriptions, which are plain JSON

const SCENARIOS = [
    { name: 'search, order and page', items: 'five', columns: 'plain', size: 2, search: ['an', 'none', 'clear'], sort: ['name', 'qty'], nav: true, depth: 4, deep: 5 },
    { name: 'changing items under search, order and page', items: 'five', columns: 'plain', size: 2, search: ['an'], sort: ['name'], nav: true, sets: ['three', 'one', 'none'], depth: 4, deep: 5 },
    { name: 'page and page size bound by the parent', items: 'five', columns: 'plain', size: 2, bound: true, nav: true, writes: [2, 3], goes: [0, 2], picks: [3, ALL], sets: ['three'], depth: 4, deep: 5 },
    { name: 'page size chosen by the user', items: 'five', columns: 'plain', size: 2, nav: true, picks: [3, ALL, 2, 1], sort: ['qty'], search: ['an'], depth: 4, deep: 5 },
    { name: 'order by dates, booleans and nested fields', items: 'five', columns: 'typed', sort: ['on', 'ok', 'at.city'], sets: ['three'], depth: 4, deep: 6 },
    { name: 'transformed and derived columns', items: 'five', columns: 'derived', sort: ['name', 'at.zip', 'qty'], sets: ['three', 'five'], swaps: ['typed'], depth: 4, deep: 5 },
    { name: 'search modes', items: 'five', columns: 'searched', search: ['an', 'AN', 'dot', 'broken', 'alt', 'id', 'clear'], toggles: true, wait: true, depth: 3, deep: 4 },
    { name: 'search of zeros, flags and columns left out', items: 'zeros', columns: 'mixed', search: ['zero', 'no', 'zip', 'own', 'clear'], sort: ['id', 'at.zip', 'qty'], swaps: ['plain', 'mixed'], depth: 3, deep: 4 },
    { name: 'search modes, longer', items: 'five', columns: 'searched', search: ['AN', 'dot'], toggles: true, wait: true, depth: 5, deep: 6 },
    { name: 'search modes under pages', items: 'five', columns: 'plain', size: 2, search: ['wide', 'AN', 'alt'], toggles: true, nav: true, wait: true, depth: 3, deep: 5 },
    { name: 'forms of column definitions', items: 'three', columns: 'words', swaps: ['none', 'plain', 'derived', 'words'], sets: ['five', 'one'], search: ['an'], depth: 4, deep: 5 },
    { name: 'no columns given', items: 'three', columns: 'none', sets: ['one', 'five'], search: ['an'], size: 2, nav: true, depth: 4, deep: 5 },
    { name: 'items kept by a server', items: 'five', columns: 'plain', size: 2, server: true, bound: true, nav: true, sort: ['name'], search: ['an'], totals: [5, 3, 9], depth: 4, deep: 5 },
    { name: 'edits of single items', items: 'five', columns: 'plain', size: 2, sort: ['name'], search: ['an'], nav: true, edits: true, depth: 3, deep: 5 },
];

// every form in which search and pages can be asked for
const SIZES = [undefined, 7, 50, 100];
const PAGING = {
    off: false,
    on: true,
    plain: {},
    sized: { pageSizeOptions: [9, 4].map((n) => ({ label: `${n} rows`, value: n })) },
    'no choice of size': { showPageSizeSelect: false },
    'no total': { showTotal: false },
    'ends and two buttons': { edgeButtons: true, showingLength: 2 },
    everything: { pageSizeOptions: [{ label: 'all rows', value: Infinity }] },
};
const SEARCHING = {
    off: false,
    on: true,
    plain: {},
    worded: { placeholder: 'Find' },
    'no case': { useCaseSensitive: false },
    'no patterns': { useRegex: false, placeholder: 'Find' },
    simple: { useRegex: false, useCaseSensitive: false },
};

async function settings(env, { paging, size, search }) {
    const { h } = env.vue;
    const lib = env.instance();
    const items = Array.from({ length: 60 }, (_, i) => ({ id: 'i' + i }));
    const app = await env.mount(
        { render: () => h(lib.VsTable, { items, columns: ['id'], noVirtualScroll: true, search: SEARCHING[search], pagination: PAGING[paging], pageSize: size }) },
        { plugins: [lib.createVlossom({ components: lib.VlossomComponents })] },
    );
    await env.flush();
    const el = app.el;
    const got = (sel) => !!el.querySelector(sel);
    const asked = PAGING[paging];
    const offered = (asked && asked.pageSizeOptions?.map((o) => [o.label, o.value])) || [['50 items', 50], ['100 items', 100], ['All', Infinity]];
    if (asked && asked !== true && !asked.pageSizeOptions && size && !offered.some((o) => o[1] === size)) {
        offered.unshift([`${size} items`, size]);
    }
    if (asked && size && !offered.some((o) => o[1] === size)) {
        return null; // a page size that is not offered
    }
    const per = asked ? (size ?? offered[0][1]) : Infinity;
    const rows = all(el, 'tbody.vs-table-body > tr').map((tr) => text(tr));
    if (json(rows) !== json(items.slice(0, per).map((x) => x.id))) {
        return `${rows.length} rows are shown, expected ${Math.min(60, per)}`;
    }
    if (got('.vs-table-pagination') !== !!asked) {
        return `pages are ${asked ? 'not ' : ''}offered`;
    }
    if (asked) {
        const pages = Math.ceil(60 / Math.min(60, per));
        const buttons = all(el, '.vs-page-button').map((b) => text(b));
        const expected = Array.from({ length: Math.min(pages, asked.showingLength ?? 10) }, (_, i) => String(i + 1));
        if (json(buttons) !== json(expected)) {
            return `page buttons are ${json(buttons)}, expected ${json(expected)}`;
        }
        const edges = all(el, '.vs-pagination button').some((b) => b.getAttribute('aria-label') === 'go to last page');
        if (edges !== !!asked.edgeButtons) {
            return `buttons for the ends are ${edges ? '' : 'not '}shown`;
        }
        const total = el.querySelector('.vs-total-items');
        if (!!total !== (asked.showTotal ?? true) || (total && text(total) !== `1-${Math.min(per, 60)} / 60 items`)) {
            return `the total is ${json(total && text(total))}`;
        }
        if (got('.vs-table-pagination .vs-select') !== (asked.showPageSizeSelect ?? true)) {
            return 'the choice of page sizes is not shown as asked';
        }
        if (asked.showPageSizeSelect ?? true) {
            await env.act(() => click(el.querySelector('.vs-table-pagination .vs-select-trigger')));
            await env.advance(60);
            const list = optionsOf().map((o) => text(o));
            if (json(list) !== json(offered.map((o) => o[0]))) {
                return `page sizes offered are ${json(list)}, expected ${json(offered.map((o) => o[0]))}`;
            }
            const chosen = text(el.querySelector('.vs-table-pagination .vs-select-trigger'));
            if (!chosen.includes(offered.find((o) => o[1] === per)[0])) {
                return `the page size is shown as ${json(chosen)}`;
            }
        }
    }
    const find = SEARCHING[search];
    const input = el.querySelector('.vs-search-input input');
    if (!!input !== !!find) {
        return `a search is ${find ? 'not ' : ''}offered`;
    }
    if (find) {
        if (input.placeholder !== (find.placeholder ?? 'Search')) {
            return `the search reads ${json(input.placeholder)}`;
        }
        const toggles = all(el, '.vs-search-input-toggle').map((t) => text(t)).join(' ');
        const expected = [...((find.useCaseSensitive ?? true) ? ['Aa'] : []), ...((find.useRegex ?? true) ? ['.*'] : [])].join(' ');
        if (toggles !== expected) {
            return `search modes offered are ${json(toggles)}, expected ${json(expected)}`;
        }
    }
    return env.errors.length ? `error: ${env.errors[0]}` : null;
}

function compare(a, b) {
    if (a === null || b === null) {
        return a === b ? 0 : a === null ? 1 : -1;
    }
    if (typeof a === 'string') {
        return a.localeCompare(b);
    }
    return Number(a) - Number(b);
}

const leaves = (v) => (v && typeof v === 'object' && !(v instanceof Date) ? Object.values(v).flatMap(leaves) : [v]);

function matches(sys, item) {
    const { words, exact, regex } = sys.m;
    if (!words) {
        return true;
    }
    const skipped = sys.defs().filter((c) => c.skipSearch).map((c) => c.key);
    const open = Object.fromEntries(Object.entries(item).map(([k, v]) => [k, k === 'at' && skipped.includes('at.zip') ? { city: v.city } : v]));
    skipped.forEach((k) => delete open[k]);
    const values = leaves(open).filter((v) => v !== null && !(v instanceof Date)).map(String);
    if (regex) {
        try {
            const re = new RegExp(words, exact ? '' : 'i');
            return values.some((v) => re.test(v));
        } catch {
            /* an invalid expression is searched for as text */
        }
    }
    return values.some((v) => (exact ? v.includes(words) : v.toLowerCase().includes(words.toLowerCase())));
}

// the table the user should see
function reference(sys) {
    const { m, sc } = sys;
    const found = sys.p.items.filter((i) => matches(sys, i));
    if (m.sort) {
        const col = sys.defs().find((c) => c.key === m.sort.key);
        if (col) {
            const k = col.sortBy || col.key;
            found.sort((a, b) => m.sort.dir * compare(at(a, k), at(b, k)));
        }
    }
    const total = sc.server ? m.total : found.length;
    const size = m.size;
    const pages = sc.size ? Math.ceil(total / size) : 1;
    const shown = !sc.size || sc.server || size === Infinity ? found : found.slice(m.page * size, (m.page + 1) * size);
    const from = size === Infinity ? 1 : m.page * size + 1;
    const to = size === Infinity ? total : Math.min((m.page + 1) * size, total);
    return { found, total, pages: size === Infinity ? 1 : pages, shown, range: `${from}-${to} / ${total} items` };
}

const show = (v) => (v === null || v === undefined ? '' : typeof v === 'object' && !(v instanceof Date) ? JSON.stringify(v, null, 2).replace(/\s+/g, ' ') : String(v).replace(/\s+/g, ' '));

export default {
    id: 'P19',
    world: 'ui',
    method: 'every sequence, up to the depth, of searching, search toggles, ordering, paging, page size choices and changes of items and columns on a real table, compared after every step with a reference pipeline',
    assumptions: [
        'search texts are chosen so that they cannot match across two fields, in hidden fields or in dates',
        'columns are not replaced while the table is ordered by one of them',
        'all values of an ordered column have one type or are null',
        'when the current page disappears the table may move to any page that exists',
        'a page size written by the parent may or may not bring the table back to the first page',
    ],

    scenarios(tier) {
        return [...SCENARIOS.map((s) => ({ ...s, depth: tier === 'thorough' ? s.deep : s.depth })), { name: 'forms of the settings', enumerate: true }];
    },

    enumerator(env) {
        const cases = [
            ...Object.keys(PAGING).flatMap((paging) => SIZES.map((size) => ({ paging, size, search: 'off' }))),
            ...Object.keys(SEARCHING).flatMap((search) => ['off', 'on'].map((paging) => ({ paging, size: undefined, search }))),
        ];
        return {
            total: cases.length,
            evaluate: async (i) => {
                const violation = await settings(env, cases[i]);
                const what = `${json(cases[i])}`;
                await env.reset();
                return { state: what, sample: cases[i], outcome: what, violation: violation && `${what}: ${violation}` };
            },
        };
    },

    async start(env, sc) {
        const { h, reactive, shallowRef, ref, toRaw } = env.vue;
        const lib = env.instance();
        const sys = { env, sc, data: DATA(!sc.search), heard: [], paged: [], totals: [], toRaw, dueSearch: null, expectSearch: [], events: [] };
        const first = sys.data[sc.items];
        const p = (sys.p = reactive({ page: 0, size: sc.size, total: first.length }));
        const items = (sys.items = shallowRef(sc.server ? first.slice(0, sc.size) : first));
        if (sc.edits) {
            sys.items = ref(first);
        }
        const columns = (sys.columns = shallowRef(COLUMNS[sc.columns]()));
        Object.defineProperty(p, 'items', { get: () => sys.items.value.map((x) => toRaw(x)), enumerable: false });
        sys.defs = () => {
            const c = columns.value;
            if (c.length) {
                return c.map((x) => (typeof x === 'string' ? { key: x, label: x } : x));
            }
            return Object.keys(sys.p.items[0] || {}).map((k) => ({ key: k, label: k }));
        };
        sys.m = { words: '', exact: false, regex: false, sort: null, page: 0, size: sc.size || Infinity, total: first.length, key: sc.items, cols: sc.columns };
        const pagination = () =>
            sc.size
                ? {
                      pageSizeOptions: [2, 3, 1].map((n) => ({ label: 'by ' + n, value: n })).concat({ label: 'everything', value: Infinity }),
                      totalItemCount: sc.server ? p.total : undefined,
                  }
                : false;
        const root = {
            render: () =>
                h(lib.VsTable, {
                    items: sys.items.value,
                    columns: columns.value,
                    noVirtualScroll: true,
                    search: !!(sc.search || sc.toggles),
                    pagination: pagination(),
                    serverMode: !!sc.server,
                    ...(sc.bound ? { page: p.page, pageSize: p.size, 'onUpdate:page': (v) => (p.page = v), 'onUpdate:pageSize': (v) => (p.size = v) } : {}),
                    ...(sc.bound ? {} : { 'onUpdate:page': (v) => sys.events.push(['page', v]) }),
                    'onUpdate:pagedItems': (v) => (sys.paged = v),
                    'onUpdate:totalItems': (v) => (sys.totals = v),
                    onPaginate: (page, size) => {
                        sys.heard.push(['paginate', page, size]);
                        if (sc.server) {
                            sys.items.value = first.slice(page * size, (page + 1) * size);
                        }
                    },
                    onSearch: (list, words) => sys.heard.push(['search', list.map((x) => x.id), words]),
                }),
        };
        sys.app = env.mount(root, { plugins: [lib.createVlossom({ components: lib.VlossomComponents })] });
        await env.flush();
        return sys;
    },

    enabled(sys) {
        const { sc, m } = sys;
        const out = [];
        (sc.sort || []).forEach((k) => sys.defs().some((d) => d.key === k && d.sortable) && out.push('sort ' + k));
        (sc.search || []).forEach((t) => TEXTS[t] !== m.words && out.push('search ' + t));
        sc.toggles && out.push('toggle case', 'toggle regex');
        if (sc.nav) {
            const { pages } = reference(sys);
            pages && m.page > 0 && out.push('prev');
            m.page < pages - 1 && out.push('next');
            pages > 2 && m.page !== pages - 1 && out.push('button ' + pages);
        }
        (sc.goes || []).forEach((n) => n !== m.page && n < reference(sys).pages && out.push('go ' + n));
        (sc.writes || []).forEach((n) => n !== m.size && out.push('size ' + n));
        (sc.picks || []).forEach((n) => (n === ALL ? Infinity : n) !== m.size && reference(sys).pages && out.push('pick ' + n));
        (sc.sets || []).forEach((k) => out.push('items ' + k));
        (sc.swaps || []).forEach((k) => k !== m.cols && !m.sort && out.push('columns ' + k));
        (sc.totals || []).forEach((n) => n !== m.total && out.push('total ' + n));
        sc.edits && out.push('rename', 'append', 'drop');
        sc.wait && sys.dueSearch !== null && out.push('wait');
        return out;
    },

    async step(sys, action) {
        const { env, m, p, sc } = sys;
        const [kind, arg] = action.split(' ');
        sys.heard.length = 0;
        sys.expected = [];
        const el = sys.app.el;
        const before = m.page;
        const label = (l) => all(el, '.vs-pagination button').find((b) => b.getAttribute('aria-label') === l);
        const press = async (l) => {
            const b = label(l);
            if (!b || b.disabled) {
                sys.complaint = `'${l}' cannot be pressed on page ${m.page + 1} of ${reference(sys).pages}`;
                return;
            }
            await env.act(() => click(b));
        };
        const searched = () => (sys.dueSearch = env.clock.now + 400);
        const reportDue = () => {
            if (sys.dueSearch !== null && env.clock.now >= sys.dueSearch) {
                sys.dueSearch = null;
                sys.expected.push(['search', reference(sys).shown.map((x) => x.id), m.words]);
            }
        };
        if (kind === 'sort') {
            const i = sys.defs().findIndex((c) => c.key === arg);
            const icon = all(el, 'thead th')[i].querySelector('.vs-table-sort-icon');
            if (!icon) {
                sys.complaint = `column ${arg} cannot be ordered`;
                return;
            }
            await env.act(() => click(icon));
            const dir = m.sort && m.sort.key === arg ? m.sort.dir : 0;
            m.sort = dir === -1 ? null : { key: arg, dir: dir === 0 ? 1 : -1 };
        } else if (kind === 'search') {
            await env.act(() => typeInto(el.querySelector('.vs-search-input input'), TEXTS[arg]));
            m.words = TEXTS[arg];
            searched();
        } else if (kind === 'toggle') {
            const b = all(el, '.vs-search-input-toggle')[arg === 'case' ? 0 : 1];
            await env.act(() => click(b.querySelector('button') || b));
            if (arg === 'case') {
                m.exact = !m.exact;
            } else {
                m.regex = !m.regex;
            }
            searched();
        } else if (kind === 'next' || kind === 'prev' || kind === 'button') {
            m.page = kind === 'next' ? m.page + 1 : kind === 'prev' ? m.page - 1 : arg - 1;
            await press(kind === 'button' ? 'go to page ' + arg : `go to ${kind === 'next' ? 'next' : 'previous'} page`);
            sys.expected.push(['paginate', m.page, m.size]);
        } else if (kind === 'go') {
            m.page = Number(arg);
            await env.act(() => (p.page = m.page));
        } else if (kind === 'size') {
            m.size = Number(arg);
            await env.act(() => (p.size = m.size));
            // a page size written by the parent may bring the table back to the first page
            p.page === 0 && (m.page = 0);
        } else if (kind === 'pick') {
            await env.act(() => click(el.querySelector('.vs-table-pagination .vs-select-trigger')));
            await env.advance(60);
            reportDue();
            const opt = optionsOf().find((o) => text(o) === (Number(arg) === ALL ? 'everything' : 'by ' + arg));
            if (!opt) {
                sys.complaint = `page size ${arg} is not offered`;
                return;
            }
            await env.act(() => click(opt));
            await env.advance(300);
            m.size = Number(arg) === ALL ? Infinity : Number(arg);
            m.page = 0;
        } else if (kind === 'items') {
            const fresh = DATA(!sc.search)[arg];
            await env.act(() => (sys.items.value = fresh));
            m.key = arg;
        } else if (kind === 'columns') {
            await env.act(() => (sys.columns.value = COLUMNS[arg]()));
            m.cols = arg;
        } else if (kind === 'total') {
            m.total = Number(arg);
            await env.act(() => (p.total = m.total));
        } else if (kind === 'rename') {
            const i = sys.items.value.findIndex((x) => /^[a-z]/.test(x.name));
            i >= 0 && (await env.act(() => (sys.items.value[i].name = sys.items.value[i].name.toUpperCase() + 'AN')));
        } else if (kind === 'append') {
            await env.act(() => sys.items.value.push(row('n' + sys.items.value.length, 'bandana', 7, 11, true, 'Nice', '123')));
        } else if (kind === 'drop') {
            await env.act(() => sys.items.value.splice(0, 1));
        } else if (kind === 'wait') {
            await env.advance(400);
        }
        const ref = reference(sys);
        // the page may only change by itself when it no longer exists
        if (sc.size && before === m.page && kind !== 'pick' && m.page >= ref.pages) {
            m.lost = true;
        }
        if (m.lost && ref.pages > 0) {
            const now = all(el, '.vs-page-button').find((b) => b.classList.contains('vs-primary'));
            const n = now ? Number(text(now)) - 1 : -1;
            if (n < 0 || n >= ref.pages) {
                sys.complaint = `after the current page disappeared the table is on page ${n + 1} of ${ref.pages}`;
            } else {
                m.page = n;
                m.lost = false;
            }
        }
        reportDue();
    },

    verdict(sys) {
        const { env, sc, m } = sys;
        if (sys.complaint) {
            return sys.complaint;
        }
        if (env.errors.length) {
            return 'an error was thrown: ' + env.errors[0];
        }
        const el = sys.app.el;
        const ref = reference(sys);
        const defs = sys.defs();
        const heads = all(el, 'thead th').map(text);
        if (json(heads) !== json(defs.map((d) => d.label))) {
            return `the header shows ${json(heads)}, expected ${json(defs.map((d) => d.label))}`;
        }
        const rows = all(el, 'tbody.vs-table-body > tr').map((tr) => all(tr, 'td').map(text));
        const want = ref.shown.map((item) => defs.map((d) => show(d.transform ? d.transform(at(item, d.key), item) : at(item, d.key)).trim()));
        if (json(rows) !== json(want)) {
            return `the rows are ${json(rows)}, expected ${json(want)}`;
        }
        if (!!el.querySelector('.vs-table-no-data') !== (want.length === 0)) {
            return 'the "no data" note is ' + (want.length ? 'shown although there are rows' : 'missing');
        }
        for (const [what, got, exp] of [['paged items', sys.paged, ref.shown], ['matching items', sys.totals, ref.found]]) {
            if (got.length !== exp.length || got.some((x, i) => sys.toRaw(x) !== sys.toRaw(exp[i]))) {
                return `the reported ${what} are ${json(got.map((x) => x.id))}, expected ${json(exp.map((x) => x.id))} (the objects given)`;
            }
        }
        for (const [i, d] of defs.entries()) {
            const icon = all(el, 'thead th')[i].querySelector('.vs-table-sort-icon');
            if (!!icon !== !!d.sortable) {
                return `column ${d.key} ${icon ? 'offers' : 'does not offer'} ordering`;
            }
            if (icon && sc.sort) {
                const arrow = icon.classList.contains('lucide-arrow-up') ? 1 : icon.classList.contains('lucide-arrow-down') ? -1 : 0;
                const dir = m.sort && m.sort.key === d.key ? m.sort.dir : 0;
                if (arrow !== dir) {
                    return `column ${d.key} shows direction ${arrow}, expected ${dir}`;
                }
            }
        }
        if (sc.size) {
            const buttons = all(el, '.vs-page-button');
            const shown = buttons.map((b) => Number(text(b)));
            const exp = Array.from({ length: ref.pages }, (_, i) => i + 1);
            if (json(shown) !== json(exp)) {
                return `the pages offered are ${json(shown)}, expected ${json(exp)}`;
            }
            if (ref.pages) {
                const on = buttons.filter((b) => b.classList.contains('vs-primary')).map((b) => Number(text(b)));
                if (json(on) !== json([m.page + 1])) {
                    return `the current page is shown as ${json(on)}, expected ${m.page + 1}`;
                }
                const range = text(el.querySelector('.vs-total-items'));
                if (range !== ref.range) {
                    return `the range reads "${range}", expected "${ref.range}"`;
                }
                for (const [l, off] of [['go to previous page', m.page === 0], ['go to next page', m.page >= ref.pages - 1]]) {
                    const b = all(el, '.vs-pagination button').find((x) => x.getAttribute('aria-label') === l);
                    if (!!b.disabled !== off) {
                        return `'${l}' is ${b.disabled ? 'disabled' : 'enabled'} on page ${m.page + 1} of ${ref.pages}`;
                    }
                }
            }
            if (sc.bound && ref.pages && (sys.p.page !== m.page || sys.p.size !== m.size)) {
                return `the bound page and size are ${sys.p.page}, ${sys.p.size}; expected ${m.page}, ${m.size}`;
            }
        }
        const events = sys.heard.filter((e) => e[0] === 'search');
        const due = (sys.expected || []).filter((e) => e[0] === 'search');
        if (json(events) !== json(due)) {
            return `search events ${json(events)}, expected ${json(due)}`;
        }
        for (const e of (sys.expected || []).filter((x) => x[0] === 'paginate')) {
            const got = sys.heard.filter((x) => x[0] === 'paginate');
            if (json(got) !== json([e])) {
                return `paginate events ${json(got)}, expected ${json([e])}`;
            }
        }
        return null;
    },

    state(sys) {
        const { m } = sys;
        return json([m, sys.dueSearch !== null, sys.p.items.map((x) => x.id + x.name), String(m.size)]);
    },
};
