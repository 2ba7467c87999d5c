// Row selection, row expansion and row events of the table, against a reference set of selected / open items.
import { all, click, json, nativeToggle, text, typeInto } from '../lib/kit.mjs';

const ITEMS = () => [
    { id: 'a', name: 'mango', qty: 2 },
    { id: 'b', name: 'apple', qty: 10 },
    { id: 'c', name: 'fig', qty: 5 },
    { id: 'd', name: 'banana', qty: 1 },
    { id: 'e', name: 'cherry', qty: 4 },
];
const COLUMNS = [
    { key: 'id', label: 'Id' },
    { key: 'name', label: 'Name', sortable: true },
];
const PARTS = { abc: [0, 1, 2], cde: [2, 3, 4], bd: [1, 3], abcde: [0, 1, 2, 3, 4], none: [] };
const RULES = {
    all: () => true,
    none: () => false,
    big: (item) => item.qty > 3,
    even: (item, index) => index % 2 === 0,
};

const SCENARIOS = [
    { name: 'every row selectable, in pages', items: 'abc', size: 2, select: 'all', beside: true, nav: true, writes: ['ac'], depth: 4, deep: 5 },
    { name: 'rows selectable by content', items: 'abcde', size: 3, select: 'big', sort: true, nav: true, writes: ['b'], depth: 3, deep: 4 },
    { name: 'rows selectable by position', items: 'abcde', size: 3, select: 'even', sort: true, nav: true, states: true, depth: 4, deep: 5 },
    { name: 'items replaced while selected', items: 'abc', select: 'all', sets: ['cde', 'bd', 'none'], depth: 3, deep: 5 },
    { name: 'items replaced while selected by content', items: 'abcde', select: 'big', sets: ['abc', 'bd'], writes: ['bc'], depth: 3, deep: 5 },
    { name: 'selection and search', items: 'abcde', select: 'all', beside: true, search: ['an', ''], depth: 3, deep: 4 },
    { name: 'initial selection', items: 'abc', select: 'all', initial: 'ab', beside: true, writes: ['abc', 'c', ''], depth: 3, deep: 5 },
    { name: 'nothing selectable', items: 'abc', select: 'none', expand: 'all', sort: true, depth: 3, deep: 5 },
    { name: 'every row expandable', items: 'abc', size: 2, expand: 'all', sort: true, nav: true, search: ['an', ''], depth: 4, deep: 5 },
    { name: 'rows expandable by content', items: 'abcde', expand: 'big', sort: true, search: ['an', ''], depth: 3, deep: 5 },
    { name: 'rows expandable by position', items: 'abcde', size: 3, expand: 'even', sort: true, nav: true, depth: 4, deep: 5 },
    { name: 'selection together with expansion', items: 'abc', select: 'all', expand: 'big', sort: true, depth: 3, deep: 5 },
    { name: 'items replaced while expanded', items: 'abc', expand: 'all', sort: true, sets: ['cde', 'bd'], depth: 3, deep: 5 },
    { name: 'clicks on cells', items: 'abc', size: 2, clicks: true, sort: true, nav: true, select: 'all', depth: 3, deep: 4 },
    { name: 'rows while loading', items: 'abc', select: 'all', expand: 'all', loading: true, depth: 3, deep: 4 },
];

function visible(sys) {
    const { m, sc } = sys;
    const list = sys.list().filter((i) => !m.words || i.name.includes(m.words));
    m.dir && list.sort((a, b) => m.dir * a.name.localeCompare(b.name));
    return sc.size ? list.slice(m.page * sc.size, (m.page + 1) * sc.size) : list;
}
const pagesOf = (sys) => (sys.sc.size ? Math.ceil(sys.list().filter((i) => !sys.m.words || i.name.includes(sys.m.words)).length / sys.sc.size) : 1);
const allowed = (sys, rule) => sys.list().filter((item, index) => RULES[rule](item, index));
const tr = (sys, id) => all(sys.app.el, 'tbody.vs-table-body > tr')[visible(sys).findIndex((x) => x.id === id)];

export default {
    id: 'P20',
    world: 'ui',
    method: 'every sequence, up to the depth, of ticking rows and the header, expanding, clicking, ordering, paging, searching, replacing items and writing the selection on a real table, compared after every step with the reference selection',
    assumptions: ['items differ in content', 'an item expanded before the items are replaced may stay expanded or close'],

    scenarios(tier) {
        return SCENARIOS.map((s) => ({ ...s, depth: tier === 'thorough' ? s.deep : s.depth }));
    },

    async start(env, sc) {
        const { h, reactive, shallowReactive, toRaw } = env.vue;
        const lib = env.instance();
        const items = ITEMS();
        const sys = { env, sc, items, heard: [], expected: [], toRaw };
        const part = (k) => PARTS[k].map((i) => items[i]);
        sys.part = part;
        const byIds = (ids) => [...ids].map((x) => items.find((i) => i.id === x));
        sys.byIds = byIds;
        const p = (sys.p = shallowReactive({ items: part(sc.items), selected: byIds(sc.initial || ''), loading: false }));
        sys.list = () => p.items.map((x) => toRaw(x));
        sys.m = { selected: new Set(sc.initial || ''), open: new Set(), ever: new Set(), dir: 0, page: 0, words: '', key: sc.items, loading: false };
        // every question about a row must name the row, its position among the items, and the items
        const rule = (name, result = (x) => x) => (item, index, list) => {
            if (!list || toRaw(list[index]) !== toRaw(item)) {
                sys.complaint = `asked about row ${item && item.id} at position ${index} of ${json(list && list.map((x) => x.id))}`;
            }
            return result(RULES[name](item, index));
        };
        const root = {
            render: () =>
                h(
                    lib.VsTable,
                    {
                        items: p.items,
                        columns: COLUMNS,
                        noVirtualScroll: true,
                        loading: p.loading,
                        search: !!sc.search,
                        pagination: sc.size ? { pageSizeOptions: [{ label: 'x', value: sc.size }] } : false,
                        ...(sc.select ? { selectable: sc.select === 'all' ? true : sc.select === 'none' ? false : rule(sc.select) } : {}),
                        ...(sc.expand && sc.expand !== 'all' ? { expandable: rule(sc.expand) } : {}),
                        ...(sc.states ? { state: rule('even', (x) => (x ? 'error' : 'success')) } : {}),
                        selectedItems: p.selected,
                        'onUpdate:selectedItems': (v) => (p.selected = v),
                        onSelectRow: (row) => sys.heard.push('select ' + (row[0].item ? row[0].item.id : 'header')),
                        onExpandRow: (row) => sys.heard.push('expand ' + row[0].item.id),
                        onClickRow: (item) => sys.heard.push('row ' + item.id),
                        onClickCell: (cell) => sys.heard.push('cell ' + (cell.item ? cell.item.id + ' ' + cell.colKey + ' ' + cell.value : 'header ' + cell.value)),
                    },
                    {
                        'body-id': ({ item, value }) => h('b', { 'data-id': item.id }, value),
                        ...(sc.expand ? { expand: ({ item }) => h('i', { class: 'more' }, 'more about ' + item.id) } : {}),
                    },
                ),
        };
        sys.app = env.mount(root, { plugins: [lib.createVlossom({ components: lib.VlossomComponents })] });
        await env.flush();
        return sys;
    },

    enabled(sys) {
        const { sc, m } = sys;
        const out = [];
        const rows = visible(sys);
        if (sc.select && sc.select !== 'none') {
            const can = allowed(sys, sc.select);
            rows.filter((r) => can.includes(r)).forEach((r) => out.push('tick ' + r.id));
            can.length && out.push('all');
            can.length && sc.beside && out.push('beside');
        }
        if (sc.expand) {
            const can = allowed(sys, sc.expand);
            rows.filter((r) => can.includes(r)).forEach((r) => out.push('expand ' + r.id));
        }
        sc.sort && out.push('sort');
        if (sc.nav) {
            m.page < pagesOf(sys) - 1 && out.push('next');
            m.page > 0 && out.push('prev');
        }
        (sc.search || []).forEach((t) => t !== m.words && out.push('search ' + t));
        (sc.sets || []).forEach((k) => k !== m.key && out.push('items ' + k));
        (sc.writes || []).forEach((w) => out.push('write ' + w));
        sc.clicks && rows.forEach((r) => out.push('click ' + r.id + ' name'));
        sc.clicks && out.push('click header');
        sc.loading && out.push('loading');
        return out;
    },

    async step(sys, action) {
        const { env, m, p, sc } = sys;
        const [kind, arg] = action.split(' ');
        sys.heard.length = 0;
        sys.expected = [];
        sys.clicked = kind === 'click';
        const el = sys.app.el;
        const turnAll = () => {
            const can = allowed(sys, sc.select).map((x) => x.id);
            m.selected = can.every((x) => m.selected.has(x)) ? new Set() : new Set(can);
            sys.expected.push('select header');
        };
        if (kind === 'tick') {
            const box = tr(sys, arg)?.querySelector('.vs-checkbox-input');
            if (!box) {
                sys.complaint = `row ${arg} has no box to tick`;
                return;
            }
            await env.act(() => nativeToggle(box));
            if (!m.loading) {
                m.selected.has(arg) ? m.selected.delete(arg) : m.selected.add(arg);
                sys.expected.push('select ' + arg);
            }
        } else if (kind === 'all') {
            const box = el.querySelector('thead .vs-checkbox-input');
            if (!box) {
                sys.complaint = 'the header has no box to tick';
                return;
            }
            await env.act(() => nativeToggle(box));
            m.loading || turnAll();
        } else if (kind === 'beside') {
            if (m.loading) {
                return;
            }
            await env.act(() => click(el.querySelector('thead th')));
            turnAll();
        } else if (kind === 'expand') {
            const b = tr(sys, arg)?.querySelector('.vs-table-expand-handle button');
            if (!b) {
                sys.complaint = `row ${arg} has nothing to expand it with`;
                return;
            }
            if (b.disabled !== m.loading) {
                sys.complaint = `row ${arg} ${b.disabled ? 'cannot' : 'can'} be expanded while ${m.loading ? '' : 'not '}loading`;
                return;
            }
            b.disabled || (await env.act(() => click(b)));
            if (!m.loading) {
                m.open.has(arg) ? m.open.delete(arg) : m.open.add(arg);
                m.ever.add(arg);
                m.open.has(arg) && sys.expected.push('expand ' + arg);
            }
        } else if (kind === 'sort') {
            await env.act(() => click(el.querySelector('.vs-table-sort-icon')));
            m.dir = m.dir === 0 ? 1 : m.dir === 1 ? -1 : 0;
        } else if (kind === 'next' || kind === 'prev') {
            const l = `go to ${kind === 'next' ? 'next' : 'previous'} page`;
            await env.act(() => click(all(el, '.vs-pagination button').find((b) => b.getAttribute('aria-label') === l)));
            m.page += kind === 'next' ? 1 : -1;
        } else if (kind === 'search') {
            await env.act(() => typeInto(el.querySelector('.vs-search-input input'), arg));
            m.words = arg;
            m.page = Math.max(0, Math.min(m.page, pagesOf(sys) - 1));
        } else if (kind === 'items') {
            await env.act(() => (p.items = sys.part(arg)));
            m.key = arg;
            sys.renewed = m.ever.size > 0;
        } else if (kind === 'write') {
            await env.act(() => (p.selected = sys.byIds(arg)));
            m.selected = new Set(arg);
        } else if (kind === 'click') {
            const cell = arg === 'header' ? all(el, 'thead th').at(-1) : all(tr(sys, arg), 'td').find((td) => td.getAttribute('data-label') === 'Name');
            await env.act(() => click(cell));
            if (arg === 'header') {
                sys.expected.push('cell header Name');
            } else {
                const item = sys.items.find((i) => i.id === arg);
                sys.expected.push('cell ' + arg + ' name ' + item.name, 'row ' + arg);
            }
        } else if (kind === 'loading') {
            m.loading = !m.loading;
            await env.act(() => (p.loading = m.loading));
        }
        if (sc.expand) {
            // the browser ends the transitions
            await env.act(() => all(el, '.vs-expandable-wrapper').forEach((x) => x.dispatchEvent(new Event('transitionend'))));
        }
        if (sys.renewed) {
            // an item expanded before the items were replaced may or may not stay so; any other is closed
            sys.renewed = false;
            visible(sys).forEach((r) => m.ever.has(r.id) && (tr(sys, r.id)?.querySelector('.more') ? m.open.add(r.id) : m.open.delete(r.id)));
        }
    },

    verdict(sys) {
        const { env, sc, m, p } = sys;
        if (sys.complaint) {
            return sys.complaint;
        }
        if (env.errors.length) {
            return 'an error was thrown: ' + env.errors[0];
        }
        const el = sys.app.el;
        const rows = visible(sys);
        if (!m.loading) {
            const shown = all(el, 'tbody.vs-table-body > tr').map((r) => r.querySelector('[data-id]').dataset.id);
            if (json(shown) !== json(rows.map((r) => r.id))) {
                return `the rows are ${json(shown)}, expected ${json(rows.map((r) => r.id))}`;
            }
        }
        const trs = all(el, 'tbody.vs-table-body > tr');
        const can = sc.select ? allowed(sys, sc.select) : [];
        const canOpen = sc.expand ? allowed(sys, sc.expand) : [];
        for (const [i, item] of rows.entries()) {
            const r = trs[i];
            const box = r.querySelector('.vs-checkbox');
            if (!!box !== can.includes(item)) {
                return `row ${item.id} ${box ? 'has a' : 'has no'} box to tick`;
            }
            const on = m.selected.has(item.id);
            if (box && (box.classList.contains('vs-checked') !== on || box.querySelector('input').checked !== on)) {
                return `the box of row ${item.id} is ${on ? 'not ticked although selected' : 'ticked although not selected'}`;
            }
            if (can.length && r.classList.contains('vs-selected') !== on) {
                return `row ${item.id} is ${on ? 'not highlighted although selected' : 'highlighted although not selected'}`;
            }
            const handle = !!r.querySelector('.vs-table-expand-handle button');
            if (handle !== canOpen.includes(item)) {
                return `row ${item.id} ${handle ? 'can' : 'cannot'} be expanded`;
            }
            const more = r.querySelector('.more');
            const open = m.open.has(item.id);
            if (!!more !== open || (open && text(more) !== 'more about ' + item.id)) {
                return `row ${item.id} shows ${more ? `"${text(more)}"` : 'no details'} although ${open ? 'expanded' : 'not expanded'}`;
            }
            if (sc.states) {
                const pos = sys.list().indexOf(item);
                const want = pos % 2 === 0 ? 'error' : 'success';
                const bad = ['error', 'success'].filter((s) => r.className.includes(s) !== (s === want));
                if (bad.length) {
                    return `row ${item.id} is styled ${r.className}, expected the ${want} state`;
                }
            }
        }
        const head = el.querySelector('thead .vs-checkbox');
        if (!!head !== can.length > 0) {
            return `the header ${head ? 'has a' : 'has no'} box`;
        }
        if (head) {
            const full = can.every((x) => m.selected.has(x.id));
            if (head.classList.contains('vs-checked') !== full || head.querySelector('input').checked !== full) {
                return `the header box is ${full ? 'not ticked although everything is selected' : 'ticked although not everything is selected'}`;
            }
            const some = !full && can.some((x) => m.selected.has(x.id));
            const none = m.selected.size === 0;
            const part = head.classList.contains('vs-indeterminate');
            if ((some && !part) || ((none || full) && part)) {
                return `the header box is ${part ? '' : 'not '}marked as partly ticked with ${json([...m.selected])} of ${json(can.map((x) => x.id))} selected`;
            }
        }
        const bound = p.selected.map((x) => x.id).sort();
        if (json(bound) !== json([...m.selected].sort())) {
            return `the bound selection is ${json(bound)}, expected ${json([...m.selected].sort())}`;
        }
        if (p.selected.some((x) => !sys.items.includes(sys.toRaw(x)))) {
            return 'the bound selection holds objects that are not the items given';
        }
        // what a click on a cell reports is compared for clicks on plain cells only
        const heard = sys.heard.filter((e) => sys.clicked || !/^(cell|row)/.test(e));
        return json(heard.sort()) === json([...sys.expected].sort()) ? null : `events ${json(heard)}, expected ${json(sys.expected)}`;
    },

    state(sys) {
        const { m } = sys;
        return json([[...m.selected].sort(), [...m.open].sort(), m.dir, m.page, m.words, m.key, m.loading]);
    },
};
