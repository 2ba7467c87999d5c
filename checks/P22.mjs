// Tabs, steps, page buttons and index views: one current entry, chosen by click, key, control, method or bound index.
import { all, click, json, key, text } from '../lib/kit.mjs';

const LISTS = { abcd: ['a', 'b', 'c', 'd'], ab: ['a', 'b'], dcba: ['d', 'c', 'b', 'a'], abcde: ['a', 'b', 'c', 'd', 'e'], a: ['a'], none: [] };
const BLOCKED = {
    no: () => false,
    all: () => true,
    b: (x) => x === 'b',
    ab: (x) => 'ab'.includes(x),
    bc: (x) => 'bc'.includes(x),
    cd: (x) => 'cd'.includes(x),
    ad: (x) => 'ad'.includes(x),
    odd: (x, i) => i % 2 === 1,
};
const ROW = ['ArrowLeft', 'ArrowRight', 'Home', 'End'];
const COL = ['ArrowUp', 'ArrowDown', 'Home', 'End'];

function lists(tier) {
    const out = [];
    for (const comp of ['VsTabs', 'VsSteps']) {
        for (const blocked of Object.keys(BLOCKED)) {
            for (const vertical of tier === 'thorough' || blocked === 'bc' ? [false, true] : [false]) {
                out.push({
                    name: `${comp} ${vertical ? 'column' : 'row'}, ${blocked} blocked`,
                    comp,
                    blocked,
                    vertical,
                    list: 'abcd',
                    keys: vertical ? COL : ROW,
                    other: vertical ? 'ArrowRight' : 'ArrowDown',
                    clicks: [1, 2],
                    writes: [3],
                    controls: comp === 'VsTabs',
                    depth: 3,
                    deep: 4,
                });
            }
        }
        out.push({ name: `${comp} with entries replaced`, comp, blocked: 'b', list: 'abcd', initial: 2, keys: ['ArrowLeft', 'ArrowRight', 'End'], lists: ['ab', 'dcba', 'abcde', 'none'], controls: comp === 'VsTabs', depth: 3, deep: 4 });
        out.push({ name: `${comp} with the allowed entries changed`, comp, blocked: 'no', list: 'abcd', initial: 1, keys: ['ArrowLeft', 'ArrowRight', 'Home'], blocks: ['cd', 'ab', 'all'], clicks: [3], controls: comp === 'VsTabs', depth: 3, deep: 4 });
        out.push({ name: `${comp} bound outside the list`, comp, blocked: 'no', list: 'abcd', keys: ['ArrowLeft', 'ArrowRight'], writes: [-1, 4, 0], clicks: [2], controls: comp === 'VsTabs', depth: 3, deep: 4 });
        out.push({ name: `${comp} with one entry`, comp, blocked: 'no', list: 'a', keys: ROW, writes: [-1, 0], clicks: [0], lists: ['ab'], controls: comp === 'VsTabs', depth: 3, deep: 5 });
    }
    out.push({ name: 'tabs and the view they switch', comp: 'VsTabs', view: true, blocked: 'b', list: 'abcd', keys: ['ArrowLeft', 'ArrowRight'], clicks: [2], writes: [1, 9], lists: ['ab', 'abcd'], depth: 4, deep: 5 });
    out.push({ name: 'tabs and the view they switch, kept alive', comp: 'VsTabs', view: true, keepAlive: true, blocked: 'no', list: 'abcd', keys: ['ArrowRight'], clicks: [0, 3], count: true, depth: 4, deep: 6 });
    return out.map((s) => ({ ...s, depth: tier === 'thorough' ? s.deep : s.depth }));
}

function pages(tier) {
    const deep = tier === 'thorough';
    const out = [];
    for (let n = 1; n <= (deep ? 9 : 7); n++) {
        for (const show of deep ? [1, 2, 3, 4, 5, 6, 7, 9] : [1, 2, 3, 4, 6]) {
            for (let at = 0; at < n; at++) {
                out.push({ name: `${n} pages, ${show} shown, at ${at}`, comp: 'VsPagination', length: n, show, initial: at, edge: true, moves: true, clicks: true, list: 'none', blocked: 'no', depth: n < 4 || (deep && n < 6) ? 2 : 1 });
            }
        }
    }
    out.push({ name: 'pages, number of pages changing', comp: 'VsPagination', length: 5, show: 3, moves: true, edge: true, lengths: [2, 7, 5], list: 'none', blocked: 'no', initial: 3, depth: deep ? 5 : 4 });
    out.push({ name: 'pages, number shown changing', comp: 'VsPagination', length: 7, show: 3, moves: true, shows: [2, 3, 10], writes: [6, 0], list: 'none', blocked: 'no', initial: 3, depth: deep ? 5 : 4 });
    out.push({ name: 'pages bound outside the list', comp: 'VsPagination', length: 3, show: 2, moves: true, edge: true, writes: [-1, 3, 1], list: 'none', blocked: 'no', depth: deep ? 5 : 4 });
    out.push({ name: 'pages blocked for a while', comp: 'VsPagination', length: 4, show: 3, moves: true, clicks: true, edge: true, writes: [2], blocks: ['all', 'no'], methods: true, list: 'none', blocked: 'no', depth: deep ? 4 : 3 });
    out.push({ name: 'pages, by method', comp: 'VsPagination', length: 4, show: 3, methods: true, list: 'none', blocked: 'no', depth: deep ? 5 : 4 });
    return out;
}

const size = (sys) => (sys.sc.comp === 'VsPagination' ? sys.m.length : LISTS[sys.m.list].length);
const free = (sys, i) => i >= 0 && i < size(sys) && !BLOCKED[sys.m.blocked](LISTS[sys.m.list][i] ?? i, i);
const nearest = (sys, from, dir) => {
    for (let i = from; i >= 0 && i < size(sys); i += dir) {
        if (free(sys, i)) {
            return i;
        }
    }
    return null;
};
const entries = (sys) => all(sys.app.el, { VsTabs: '.vs-tab-item', VsSteps: '.vs-step-item', VsPagination: '.vs-page-button' }[sys.sc.comp]);
const control = (sys, which) =>
    sys.sc.comp === 'VsTabs'
        ? all(sys.app.el, '.vs-tab-control')[which === 'prev' ? 0 : 1]
        : all(sys.app.el, '.vs-pagination-control-button').find((b) => b.getAttribute('aria-label') === { prev: 'go to previous page', next: 'go to next page', first: 'go to first page', last: 'go to last page' }[which]);

export default {
    id: 'P22',
    world: 'ui',
    method: 'every sequence, up to the depth, of clicks, keys, controls, methods, bound indexes, replaced entries and changed permissions on real tabs, steps, page buttons and index views, for every blocking pattern listed and every pair of lengths, compared after every step with a reference index',
    assumptions: ['arrow keys are pressed on an entry'],

    scenarios(tier) {
        return [...lists(tier), ...pages(tier)];
    },

    async start(env, sc) {
        const { h, ref, shallowReactive, defineComponent } = env.vue;
        const lib = env.instance();
        const sys = { env, sc, heard: [] };
        const at = sc.initial ?? 0;
        const m = (sys.m = { at: at < (sc.length ?? LISTS[sc.list].length) ? at : -1, list: sc.list, blocked: sc.blocked, length: sc.length, show: sc.show, counts: {} });
        const p = (sys.p = shallowReactive({ value: at, list: LISTS[sc.list], blocked: sc.blocked, length: sc.length, show: sc.show }));
        sys.ref = ref(null);
        const rule = (name) => (item, index) => {
            if (p.list[index] !== item) {
                sys.complaint = `asked whether ${json(item)} is allowed at position ${index} of ${json(p.list)}`;
            }
            return BLOCKED[name](item, index);
        };
        const rules = Object.fromEntries(Object.keys(BLOCKED).map((k) => [k, k === 'no' ? false : k === 'all' ? true : rule(k)]));
        const Panel = defineComponent({
            props: ['name'],
            setup: (props) => {
                const n = ref(0);
                return () => h('button', { class: 'panel', onClick: () => n.value++ }, `${props.name} ${n.value}`);
            },
        });
        const bound = () => ({
            modelValue: p.value,
            'onUpdate:modelValue': (v) => {
                sys.heard.push('model ' + v);
                p.value = v;
            },
            onChange: (v) => sys.heard.push('change ' + v),
        });
        const root = {
            render: () => {
                const common = { ref: sys.ref, ...bound(), disabled: rules[p.blocked] };
                const main =
                    sc.comp === 'VsTabs'
                        ? h(lib.VsTabs, { ...common, tabs: p.list, vertical: !!sc.vertical, controls: sc.controls ? 'show' : 'hide' })
                        : sc.comp === 'VsSteps'
                          ? h(lib.VsSteps, { ...common, steps: p.list, vertical: !!sc.vertical })
                          : h(lib.VsPagination, { ...common, length: p.length, showingLength: p.show, edgeButtons: !!sc.edge });
                return h('div', [main, ...(sc.view ? [h('div', { class: 'view' }, [h(lib.VsIndexView, { modelValue: p.value, keepAlive: !!sc.keepAlive }, () => p.list.map((x) => h(Panel, { key: x, name: x })))])] : [])]);
            },
        };
        sys.app = env.mount(root, { plugins: [lib.createVlossom({ components: lib.VlossomComponents })] });
        await env.flush();
        m.fresh = true;
        return sys;
    },

    enabled(sys) {
        const { sc, m } = sys;
        const out = [];
        const n = size(sys);
        if (sc.comp === 'VsPagination') {
            const start = Math.max(0, Math.min(m.at - Math.floor(m.show / 2), m.length - m.show));
            sc.clicks && m.blocked === 'no' && Array.from({ length: Math.min(m.show, n) }, (_, i) => out.push('click ' + (start + i)));
            sc.moves && out.push('prev', 'next');
            sc.moves && sc.edge && out.push('first', 'last');
            if (sc.methods) {
                out.push('method goFirst', 'method goLast', 'method setPage 2');
                m.at !== 0 && m.at !== -1 && out.push('method goPrev');
                m.at < n - 1 && out.push('method goNext');
            }
        } else {
            (sc.clicks || []).filter((i) => i < n).forEach((i) => out.push('click ' + i));
            n && (sc.keys || []).forEach((k) => out.push('key ' + k));
            n && sc.other && out.push('key ' + sc.other);
            sc.controls && out.push('prev', 'next');
        }
        (sc.writes || []).forEach((v) => v !== sys.p.value && out.push('write ' + v));
        (sc.lists || []).forEach((l) => l !== m.list && out.push('list ' + l));
        (sc.blocks || []).forEach((b) => b !== m.blocked && out.push('block ' + b));
        (sc.lengths || []).forEach((l) => l !== m.length && out.push('length ' + l));
        (sc.shows || []).forEach((s) => s !== m.show && out.push('show ' + s));
        sc.count && m.at >= 0 && out.push('count');
        return out;
    },

    async step(sys, action) {
        const { env, m, p, sc } = sys;
        const [kind, arg, more] = action.split(' ');
        sys.heard.length = 0;
        sys.focus = sys.moved = false;
        const before = m.at;
        const n = size(sys);
        const go = (i) => i !== null && free(sys, i) && (m.at = i);
        // what a press in this direction reaches
        const onwards = (dir) => (m.at === -1 && dir < 0 ? null : nearest(sys, m.at + dir, dir));
        if (kind === 'click') {
            const node = sc.comp === 'VsPagination' ? entries(sys).find((b) => text(b) === String(+arg + 1)) : entries(sys)[+arg];
            if (!node) {
                sys.complaint = `entry ${arg} is not on the page`;
                return;
            }
            await env.act(() => click(node));
            go(+arg);
        } else if (kind === 'key') {
            await env.act(() => key(entries(sys)[Math.max(0, m.at)], arg));
            const dirs = sc.vertical ? { ArrowUp: -1, ArrowDown: 1 } : { ArrowLeft: -1, ArrowRight: 1 };
            arg in dirs && go(onwards(dirs[arg]));
            arg === 'Home' && go(nearest(sys, 0, 1));
            arg === 'End' && go(nearest(sys, n - 1, -1));
            sys.focus = m.at !== before;
        } else if (['prev', 'next', 'first', 'last'].includes(kind)) {
            const b = control(sys, kind);
            if (!b) {
                sys.complaint = `there is no ${kind} control`;
                return;
            }
            const to = { prev: () => onwards(-1), next: () => onwards(1), first: () => nearest(sys, 0, 1), last: () => nearest(sys, n - 1, -1) }[kind]();
            if (b.disabled) {
                if (to !== null && to !== m.at) {
                    sys.complaint = `the ${kind} control cannot be used at ${m.at} although ${to} is allowed`;
                }
                return;
            }
            if (m.at !== -1 && (to === null || to === m.at) && free(sys, m.at)) {
                sys.complaint = `the ${kind} control can be used at ${m.at} although there is nowhere to go`;
                return;
            }
            await env.act(() => click(b));
            go(to);
        } else if (kind === 'method') {
            await env.act(() => sys.ref.value[arg](...(more ? [+more] : [])));
            go({ goFirst: 0, goLast: n - 1, goPrev: m.at - 1, goNext: m.at + 1, setPage: +more }[arg]);
        } else if (kind === 'write') {
            await env.act(() => (p.value = +arg));
            m.at = +arg >= 0 && +arg < n ? +arg : -1;
        } else if (kind === 'list') {
            m.list = arg;
            await env.act(() => (p.list = LISTS[arg]));
            m.at = m.at < LISTS[arg].length ? m.at : -1;
        } else if (kind === 'length') {
            m.length = +arg;
            await env.act(() => (p.length = +arg));
            m.at = m.at < +arg ? m.at : -1;
        } else if (kind === 'show') {
            m.show = +arg;
            await env.act(() => (p.show = +arg));
        } else if (kind === 'block') {
            m.blocked = arg;
            await env.act(() => (p.blocked = arg));
        } else if (kind === 'count') {
            const b = all(sys.app.el, '.view .panel').find((x) => text(x).startsWith(LISTS[m.list][m.at] + ' '));
            if (!b) {
                sys.complaint = `panel ${m.at} is not on the page`;
                return;
            }
            await env.act(() => click(b));
            m.counts[m.at] = (m.counts[m.at] || 0) + 1;
        }
        sys.moved = m.at !== before;
        m.fresh = false;
    },

    verdict(sys) {
        const { env, sc, m, p } = sys;
        if (sys.complaint) {
            return sys.complaint;
        }
        if (env.errors.length) {
            return 'an error was thrown: ' + env.errors[0];
        }
        const n = size(sys);
        const nodes = entries(sys);
        if (sc.comp === 'VsPagination') {
            const start = Math.max(0, Math.min(m.at - Math.floor(m.show / 2), m.length - m.show));
            const want = Array.from({ length: Math.min(m.show, n) }, (_, i) => String(start + i + 1));
            if (json(nodes.map(text)) !== json(want)) {
                return `the pages offered are ${json(nodes.map(text))}, expected ${json(want)}`;
            }
            const lit = nodes.filter((b) => b.classList.contains('vs-primary')).map(text);
            if (json(lit) !== json(m.at === -1 ? [] : [String(m.at + 1)])) {
                return `the page marked is ${json(lit)}, expected number ${m.at + 1}`;
            }
            if (nodes.some((b) => b.disabled !== (m.blocked === 'all'))) {
                return 'the page buttons are ' + (m.blocked === 'all' ? 'usable although blocked' : 'not usable');
            }
        } else {
            const names = nodes.map((x) => text(x.querySelector('.vs-step-label') || x));
            if (json(names) !== json(LISTS[m.list])) {
                return `the entries are ${json(names)}, expected ${json(LISTS[m.list])}`;
            }
            for (const [i, x] of nodes.entries()) {
                const on = i === m.at;
                if (x.classList.contains('vs-selected') !== on || x.tabIndex !== (on ? 0 : -1) || (sc.comp === 'VsTabs' && x.getAttribute('aria-selected') !== String(on))) {
                    return `entry ${i} is ${on ? 'not marked although current' : 'marked although not current'} (current is ${m.at})`;
                }
                if (x.classList.contains('vs-disabled') === free(sys, i)) {
                    return `entry ${i} looks ${free(sys, i) ? 'blocked although allowed' : 'allowed although blocked'}`;
                }
                if (sc.comp === 'VsSteps' && x.classList.contains('vs-previous') !== i < m.at) {
                    return `step ${i} is ${i < m.at ? 'not marked as done' : 'marked as done'} at step ${m.at}`;
                }
            }
            if (sc.comp === 'VsSteps' && n > 0) {
                const done = sys.app.el.querySelector('.vs-step-progress').style[sc.vertical ? 'height' : 'width'];
                const want = n > 1 && m.at > 0 ? (m.at / (n - 1)) * 100 : 0;
                if (Math.abs(parseFloat(done) - want) > 0.01) {
                    return `the progress is ${done}, expected ${want}%`;
                }
            }
            if (sys.focus && document.activeElement !== nodes[m.at]) {
                return `the focus is not on entry ${m.at} after the key`;
            }
        }
        const inside = (v) => (v >= 0 && v < n ? v : -1);
        if (inside(p.value) !== m.at) {
            return `the bound index is ${p.value}, expected ${m.at}`;
        }
        if (!m.fresh) {
            const want = sys.moved ? ['change ' + m.at] : [];
            const heard = sys.heard.filter((e) => e.startsWith('change'));
            if (json(heard) !== json(want) || sys.heard.filter((e) => e.startsWith('model')).length > 1) {
                return `events ${json(sys.heard)}, expected ${json(want)}`;
            }
        }
        if (sc.view) {
            const shown = all(sys.app.el, '.view .panel').filter((x) => x.parentElement.style.display !== 'none').map(text);
            const want = m.at === -1 ? [] : [`${LISTS[m.list][m.at]} ${(sc.keepAlive && m.counts[m.at]) || 0}`];
            if (!sc.keepAlive && sc.count) {
                return null;
            }
            if (json(shown) !== json(want)) {
                return `the view shows ${json(shown)}, expected ${json(want)}`;
            }
        }
        return null;
    },

    state(sys) {
        const { m } = sys;
        return json([m.at, m.list, m.blocked, m.length, m.show, m.counts]);
    },
};
