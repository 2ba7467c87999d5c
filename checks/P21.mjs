// The open list of a select: what it offers, marks and highlights, and what pointer and keyboard choose.
import { all, click, json, key, text, typeInto } from '../lib/kit.mjs';

const FRUIT = ['Apple', 'banana', 'Avocado', 'plum'];
const PEOPLE = [
    { id: 0, info: { name: 'Ann', team: 'x' } },
    { id: 7, info: { name: 'Bob', team: 'y' } },
    { id: false, info: { name: 'bea', team: 'x' } },
    { id: { k: 1 }, info: { name: 'Cy', team: '' } },
];
const MIXED = [0, '0x', { a: 1 }, true, 12];
// one label extended by a digit equals another label extended by its position
const ALIKE = ['p1', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'p', 'z'];

const fromFruit = (list) => list.map((v) => ({ option: v, label: v, value: v, group: v[0].toLowerCase() }));
const SETS = {
    fruit: () => fromFruit(FRUIT),
    fruitTurned: () => fromFruit([...FRUIT].reverse()),
    fruitFewer: () => fromFruit(['banana', 'plum']),
    fruitMore: () => fromFruit(['kiwi', ...FRUIT]),
    people: () => PEOPLE.map((o) => ({ option: o, label: o.info.name, value: o.id, group: o.info.team })),
    peopleTurned: () => [...PEOPLE].reverse().map((o) => ({ option: o, label: o.info.name, value: o.id, group: o.info.team })),
    teams: () => PEOPLE.map((o) => ({ option: o, label: JSON.stringify(o.info), value: o, group: o.info.team })),
    plain: () => PEOPLE.map((o) => ({ option: o, label: JSON.stringify(o), value: o, group: o.info.team })),
    mixed: () => MIXED.map((o) => ({ option: o, label: typeof o === 'object' ? JSON.stringify(o) : String(o), value: o, group: '' })),
    alike: () => ALIKE.map((v) => ({ option: v, label: v, value: v, group: '' })),
    none: () => [],
};
const NAMED = { people: ['info.name', 'id'], teams: ['info', ''] };
const BLOCKED = {
    none: () => false,
    all: () => true,
    first: (o, i) => i === 0,
    a: (o) => o.label.toLowerCase().startsWith('a'),
    edges: (o, i, n) => i === 0 || i === n - 1,
};

const KEYS = ['ArrowDown', 'ArrowUp', 'Enter', 'Escape'];
const MOVES = ['ArrowDown', 'ArrowUp', 'Home', 'End'];
const SCENARIOS = [
    { name: 'one of a list, by pointer', set: 'fruit', pick: 'all', clear: true, outside: true, wait: true, writes: ['plum', 'nothing'], depth: 4, deep: 5 },
    { name: 'one of a list, by keyboard', set: 'fruit', begin: ['open'], keys: [...MOVES, 'Enter'], depth: 4, deep: 6 },
    { name: 'one of a list, every key', set: 'fruit', blocked: 'a', focus: true, keys: [...KEYS, 'Space', 'Tab'], wait: true, depth: 4, deep: 5 },
    { name: 'one of a list, keys and pointer', set: 'fruit', initial: 1, blocked: 'first', begin: ['open'], keys: ['ArrowDown', 'Enter', 'End'], hover: [1, 3], reopen: true, depth: 4, deep: 5 },
    { name: 'the first is chosen, by keyboard', set: 'fruit', initial: 0, begin: ['open'], keys: ['ArrowDown', 'ArrowUp', 'Enter'], reopen: true, wait: true, depth: 4, deep: 5 },
    { name: 'several, by pointer', set: 'fruit', multiple: true, begin: ['open'], pick: 'all', chips: true, clear: true, writes: ['both'], depth: 4, deep: 5 },
    { name: 'several, by keyboard', set: 'fruit', multiple: true, all: true, search: true, begin: ['open'], keys: [...MOVES, 'Enter', 'Space'], depth: 4, deep: 5 },
    { name: 'several, collapsed', set: 'people', multiple: true, collapse: true, begin: ['open'], pick: 'all', chips: true, writes: ['both'], depth: 3, deep: 5 },
    { name: 'all of a list without search', set: 'fruit', multiple: true, all: true, blocked: 'first', begin: ['open'], pick: 'all', keys: ['Home', 'ArrowDown', 'Enter'], depth: 3, deep: 4 },
    { name: 'all of what is found', set: 'fruit', multiple: true, all: true, blocked: 'edges', search: true, begin: ['open'], pick: [1, 2], words: ['an', 'zz', 'a', ''], turnAll: true, depth: 4, deep: 5 },
    { name: 'all while one not allowed is chosen', set: 'fruit', multiple: true, all: true, blocked: 'edges', initial: 0, begin: ['open'], pick: [1, 2], turnAll: true, chips: true, clear: true, depth: 4, deep: 6 },
    { name: 'nothing can be chosen', set: 'fruit', multiple: true, all: true, blocked: 'all', search: true, begin: ['open'], keys: [...MOVES, 'Enter'], turnAll: true, words: ['a'], depth: 3, deep: 4 },
    { name: 'search', set: 'fruit', search: true, begin: ['open'], pick: 'all', words: ['A', 'b.n', '(', ''], turns: true, reopen: true, depth: 3, deep: 5 },
    { name: 'search and keyboard', set: 'fruit', search: true, begin: ['open'], words: ['a', 'PL'], keys: ['ArrowDown', 'ArrowUp', 'Enter', 'End', 'Tab', 'Space'], depth: 4, deep: 5 },
    { name: 'search, left and opened again', set: 'fruit', search: true, multiple: true, begin: ['open'], words: ['a'], turns: true, reopen: true, wait: true, clear: true, pick: [0], depth: 4, deep: 6 },
    { name: 'search by text only', set: 'fruit', search: { useRegex: false, useCaseSensitive: false }, begin: ['open'], words: ['A', 'b.n', '('], pick: 'all', depth: 3, deep: 4 },
    { name: 'search without case', set: 'fruit', search: { useCaseSensitive: false }, begin: ['open'], words: ['A', 'b.n'], pick: [0], depth: 2, deep: 3 },
    { name: 'search without expressions', set: 'fruit', search: { useRegex: false }, begin: ['open'], words: ['A', 'b.n'], pick: [0], depth: 2, deep: 3 },
    { name: 'search with everything', set: 'fruit', search: { useRegex: true, useCaseSensitive: true, placeholder: '' }, begin: ['open'], words: ['A', 'b.n'], turns: true, depth: 3, deep: 4 },
    { name: 'search with a hint', set: 'fruit', search: { placeholder: 'find' }, begin: ['open'], words: ['A', 'b.n'], turns: true, depth: 3, deep: 4 },
    { name: 'named labels and values', set: 'people', search: true, begin: ['open'], pick: 'all', words: ['b', '7'], writes: ['both', 'first', 'last'], reopen: true, depth: 3, deep: 4 },
    { name: 'named, not all allowed', set: 'people', blocked: 'edges', multiple: true, all: true, begin: ['open'], pick: 'all', turnAll: true, writes: ['first'], keys: ['End', 'Enter'], depth: 3, deep: 4 },
    { name: 'labels that are objects', set: 'teams', multiple: true, begin: ['open'], pick: 'all', chips: true, writes: ['first'], depth: 3, deep: 4 },
    { name: 'no names', set: 'plain', multiple: true, begin: ['open'], pick: 'all', chips: true, writes: ['last'], depth: 3, deep: 4 },
    { name: 'values of every kind', set: 'mixed', multiple: true, begin: ['open'], pick: 'all', chips: true, depth: 3, deep: 4 },
    { name: 'values of every kind, one of them', set: 'mixed', begin: ['open'], pick: 'all', reopen: true, writes: ['first'], depth: 3, deep: 4 },
    { name: 'labels that look alike', set: 'alike', multiple: true, begin: ['open'], pick: [0, 10, 11], chips: true, keys: ['End'], depth: 3, deep: 4 },
    { name: 'grouped', set: 'people', grouped: true, multiple: true, all: true, search: true, begin: ['open'], pick: [0, 3], keys: ['ArrowDown', 'End', 'Enter'], words: ['b'], depth: 4, deep: 5 },
    { name: 'grouped in a given order', set: 'people', grouped: true, order: ['y', 'q'], initial: 3, begin: ['open'], keys: [...MOVES, 'Enter'], reopen: true, depth: 4, deep: 5 },
    { name: 'options replaced, one chosen', set: 'fruit', initial: 1, sets: ['fruitTurned', 'fruitFewer', 'fruitMore', 'none'], pick: [1], reopen: true, depth: 4, deep: 5 },
    { name: 'options replaced, several chosen', set: 'fruit', initial: 1, multiple: true, sets: ['fruitTurned', 'fruitFewer', 'fruitMore'], begin: ['open'], pick: 'all', chips: true, depth: 3, deep: 4 },
    { name: 'options replaced, all chosen', set: 'fruit', multiple: true, all: true, blocked: 'first', sets: ['fruitTurned', 'fruitMore'], begin: ['open'], turnAll: true, pick: [2], depth: 4, deep: 5 },
    { name: 'named options replaced', set: 'people', initial: 3, sets: ['peopleTurned'], writes: ['both'], pick: 'all', reopen: true, depth: 3, deep: 4 },
];

const groupsOf = (sc, list) => {
    if (!sc.grouped) {
        return [{ name: null, items: list }];
    }
    const names = [...new Set(list.map((o) => o.group).filter(Boolean))];
    const given = sc.order || [];
    const ordered = [...given.filter((g) => names.includes(g)), ...names.filter((g) => !given.includes(g))];
    const rest = list.filter((o) => !o.group);
    return [...ordered.map((g) => ({ name: g, items: list.filter((o) => o.group === g) })), ...(rest.length ? [{ name: 'Ungrouped', items: rest }] : [])];
};

function matches(m, label) {
    if (!m.words) {
        return true;
    }
    const plain = () => (m.cased ? label.includes(m.words) : label.toLowerCase().includes(m.words.toLowerCase()));
    if (!m.regex) {
        return plain();
    }
    try {
        return new RegExp(m.words, m.cased ? '' : 'i').test(label);
    } catch {
        return plain();
    }
}

const found = (sys) => sys.m.list.filter((o) => matches(sys.m, o.label));
const isChosen = (sys, o) => sys.m.chosen.some((v) => json(v) === json(o.value));
// everything the highlight can rest on, in the order of the page
const stops = (sys) => [
    ...(sys.sc.search ? ['search'] : []),
    ...(sys.sc.multiple && sys.sc.all ? ['all'] : []),
    ...groupsOf(sys.sc, found(sys)).flatMap((g) => g.items.filter((o) => !o.blocked).map((o) => 'option ' + o.label)),
];
const optionNodes = () => all(document, '.vs-select-options .vs-grouped-list-item');
const nodeOf = (label) => optionNodes().find((n) => text(n) === text({ textContent: label }));
const trigger = (sys) => sys.app.el.querySelector('.vs-select-trigger');

export default {
    id: 'P21',
    world: 'ui',
    method: 'every sequence, up to the depth, of opening, choosing by pointer and keyboard, highlighting, searching, taking all, removing chips, clearing, replacing options and writing the model on a real select, compared after every step with a reference list',
    assumptions: ['option values differ', 'options that are not allowed cannot be clicked, as the style sheet has it', 'text is typed while the highlight rests on the search field'],

    scenarios(tier) {
        return SCENARIOS.map((s) => ({ ...s, depth: tier === 'thorough' ? s.deep : s.depth }));
    },

    async start(env, sc) {
        const { h, shallowReactive, toRaw } = env.vue;
        const lib = env.instance();
        const sys = { env, sc, heard: [], expected: [] };
        const build = (name) => {
            const list = SETS[name]();
            return list.map((o, i) => ({ ...o, blocked: BLOCKED[sc.blocked || 'none'](o, i, list.length) }));
        };
        sys.build = build;
        const list = build(sc.set);
        sys.first = list;
        const initial = sc.initial === undefined ? [] : [list[sc.initial].value];
        const p = (sys.p = shallowReactive({ value: sc.multiple ? initial : (initial[0] ?? null), options: list.map((o) => o.option) }));
        sys.m = { list, chosen: [...initial], open: false, words: '', cased: false, regex: false, at: -1, on: null, clears: [], gone: null, set: sc.set };
        const blocked = (option, index, options) => {
            if (!options || json(toRaw(options[index])) !== json(toRaw(option)) || options.length !== p.options.length) {
                sys.complaint = `asked whether ${json(option)} is allowed as number ${index} of ${json(options)}`;
            }
            const o = sys.build(sys.m.set).find((x) => json(x.option) === json(option));
            return !!o && o.blocked;
        };
        const [optionLabel, optionValue] = NAMED[sc.set] || ['', ''];
        const root = {
            render: () =>
                h(lib.VsSelect, {
                    options: p.options,
                    optionLabel,
                    optionValue,
                    multiple: !!sc.multiple,
                    selectAll: !!sc.all,
                    closableChips: !!sc.chips,
                    collapseChips: !!sc.collapse,
                    noClear: !sc.clear,
                    placeholder: 'choose',
                    ...(sc.search ? { search: sc.search } : {}),
                    ...(sc.blocked ? { optionsDisabled: sc.blocked === 'all' ? true : blocked } : {}),
                    ...(sc.grouped ? { groupBy: (o) => o.info.team || null } : {}),
                    ...(sc.order ? { groupOrder: sc.order } : {}),
                    modelValue: p.value,
                    'onUpdate:modelValue': (v) => (p.value = v),
                    onOpen: () => sys.heard.push('open'),
                    onClose: () => sys.heard.push('close'),
                    onClear: () => sys.heard.push('clear'),
                    onClickOption: (o) => sys.heard.push(`option ${o.label} ${json(o.value)} ${json(o.item)} ${o.index}`),
                }),
        };
        sys.app = env.mount(root, { plugins: [lib.createVlossom({ components: lib.VlossomComponents })] });
        await env.flush();
        for (const a of sc.begin || []) {
            await this.step(sys, a);
            const bad = this.verdict(sys);
            if (bad) {
                sys.complaint = sys.complaint || bad;
            }
        }
        return sys;
    },

    enabled(sys) {
        const { sc, m } = sys;
        const out = [];
        (!sc.begin || sc.reopen || !m.open) && out.push('open');
        sc.focus && document.activeElement !== trigger(sys) && out.push('focus');
        const ways = (sc.pick === 'all' ? m.list.map((o, i) => i) : sc.pick || []).filter((i) => m.list[i]);
        m.open && ways.forEach((i) => found(sys).includes(m.list[i]) && !m.list[i].blocked && out.push('pick ' + i));
        m.open && (sc.hover || []).forEach((i) => m.list[i] && found(sys).includes(m.list[i]) && out.push('hover ' + i));
        for (const k of sc.keys || []) {
            (m.at !== '?' || ['Home', 'End', 'Escape', 'Tab'].includes(k)) && out.push('key ' + k);
        }
        if (m.open && (sc.search || sc.all) && m.at !== '?') {
            m.on === 'search' && (sc.words || []).forEach((w) => w !== m.words && out.push('type ' + w));
            m.on === 'search' && sc.turns && out.push('case', 'regex');
        }
        m.open && sc.turnAll && out.push('all');
        sc.chips && m.chosen.length && out.push('chip 0');
        sc.chips && m.chosen.length > 1 && !sc.collapse && out.push('chip ' + (m.chosen.length - 1));
        sc.clear && m.chosen.length && out.push('clear');
        m.open && sc.outside && out.push('outside');
        (sc.writes || []).forEach((w) => out.push('write ' + w));
        (sc.sets || []).forEach((s) => s !== m.set && out.push('options ' + s));
        sc.wait && (m.clears.length || m.gone !== null) && out.push('wait');
        return out;
    },

    async step(sys, action) {
        const { env, m, p, sc } = sys;
        const kind = action.split(' ')[0];
        const arg = action.slice(kind.length + 1);
        sys.heard.length = 0;
        sys.expected = [];
        sys.moved = false;
        const el = sys.app.el;
        const rest = (i) => {
            m.at = i;
            m.on = i === -1 ? null : stops(sys)[i];
        };
        const opened = () => {
            if (m.open) {
                return;
            }
            m.open = true;
            m.gone = null;
            sys.expected.push('open');
            const o = m.list.find((x) => json(x.value) === json(m.chosen[0]));
            rest(sc.search ? 0 : o && m.chosen.length ? stops(sys).indexOf('option ' + o.label) : -1);
        };
        const closed = () => {
            if (!m.open) {
                return;
            }
            m.open = false;
            m.clears.push(env.clock.now + 250);
            m.gone = env.clock.now + 250;
            sys.expected.push('close');
            rest(-1);
        };
        const drop = (v) => (m.chosen = m.chosen.filter((x) => json(x) !== json(v)));
        const chose = (o) => {
            if (sc.multiple) {
                isChosen(sys, o) ? drop(o.value) : m.chosen.push(o.value);
            } else {
                m.chosen = [o.value];
                closed();
            }
            sys.expected.push(`option ${o.label} ${json(o.value)} ${json(o.option)} ${m.list.indexOf(o)}`);
        };
        const turnAll = () => {
            const can = found(sys).filter((o) => !o.blocked);
            if (can.length && can.every((o) => isChosen(sys, o))) {
                can.forEach((o) => drop(o.value));
            } else {
                can.forEach((o) => isChosen(sys, o) || m.chosen.push(o.value));
            }
        };
        if (kind === 'open') {
            await env.act(() => {
                trigger(sys).focus();
                click(trigger(sys));
            });
            m.open ? closed() : opened();
        } else if (kind === 'focus') {
            await env.act(() => trigger(sys).focus());
        } else if (kind === 'pick') {
            const o = m.list[+arg];
            const n = nodeOf(o.label);
            if (!n) {
                sys.complaint = `option ${o.label} is not offered`;
                return;
            }
            await env.act(() => click(n.querySelector('.vs-select-option')));
            chose(o);
        } else if (kind === 'hover') {
            const o = m.list[+arg];
            const n = nodeOf(o.label);
            if (!n) {
                sys.complaint = `option ${o.label} is not offered`;
                return;
            }
            await env.act(() => n.querySelector('.vs-select-option').dispatchEvent(new MouseEvent('mousemove', { bubbles: true })));
            o.blocked || rest(stops(sys).indexOf('option ' + o.label));
        } else if (kind === 'key') {
            const reached = m.open || document.activeElement === trigger(sys);
            const typing = m.open && m.on === 'search' && document.activeElement === document.querySelector('.vs-select-search input');
            let pressed;
            await env.act(() => (pressed = key(document.activeElement || document.body, arg)));
            if (typing && arg === 'Space' && pressed.defaultPrevented) {
                sys.complaint = 'no space can be typed into the search field';
            }
            const last = stops(sys).length - 1;
            if (!reached) {
                // somebody else's key
            } else if (!m.open) {
                ['ArrowDown', 'Enter', 'Space'].includes(arg) && opened();
            } else if (arg === 'Escape') {
                closed();
                sys.focus = true;
            } else if (arg === 'Tab') {
                m.on !== 'search' && closed();
            } else if (MOVES.includes(arg)) {
                const to = { ArrowDown: m.at + 1, ArrowUp: Math.max(m.at - 1, 0), Home: 0, End: last }[arg];
                rest(Math.min(to, last));
                sys.moved = true;
            } else if (m.on === 'all') {
                turnAll();
            } else if (m.on && m.on !== 'search') {
                chose(m.list.find((o) => 'option ' + o.label === m.on));
            }
        } else if (kind === 'type') {
            await env.act(() => typeInto(document.querySelector('.vs-select-search input'), arg));
            m.words = arg;
        } else if (kind === 'case' || kind === 'regex') {
            const b = all(document, '.vs-select-search .vs-search-input-toggle')[kind === 'case' ? 0 : 1];
            if (!b) {
                sys.complaint = `the search field cannot be turned to ${kind}`;
                return;
            }
            await env.act(() => click(b));
            kind === 'case' ? (m.cased = !m.cased) : (m.regex = !m.regex);
        } else if (kind === 'all') {
            const b = document.querySelector('.vs-select-all');
            if (!b) {
                sys.complaint = 'there is nothing to take all options with';
                return;
            }
            await env.act(() => click(b));
            turnAll();
        } else if (kind === 'chip') {
            await env.act(() => click(all(el, '.vs-chip-close-button')[+arg]));
            m.chosen.splice(+arg, 1);
        } else if (kind === 'clear') {
            await env.act(() => click(el.querySelector('.vs-select-clear-button')));
            m.chosen = [];
            m.words = '';
            sys.expected.push('clear');
        } else if (kind === 'outside') {
            await env.act(() => click(document.body));
            closed();
        } else if (kind === 'write') {
            const v = { plum: 'plum', nothing: null, both: [m.list[1].value, 'unheard of', m.list[2].value], first: m.list[0].value, last: m.list.at(-1).value }[arg];
            await env.act(() => (p.value = v));
            const wanted = v === null ? [] : Array.isArray(v) && sc.multiple ? v : [v];
            m.chosen = wanted.filter((x) => m.list.some((o) => json(o.value) === json(x)));
        } else if (kind === 'options') {
            const list = sys.build(arg);
            m.set = arg;
            await env.act(() => (p.options = list.map((o) => o.option)));
            m.list = list;
            m.chosen = m.chosen.filter((x) => list.some((o) => json(o.value) === json(x)));
            m.on && m.on !== 'search' && m.on !== 'all' && ((m.at = '?'), (m.on = null));
        }
        await env.advance(kind === 'wait' ? 600 : 60);
        if (m.clears.some((t) => t <= env.clock.now)) {
            m.words = '';
            m.clears = m.clears.filter((t) => t > env.clock.now);
        }
        if (m.gone !== null && m.gone <= env.clock.now) {
            m.gone = null;
            m.cased = m.regex = false;
        }
    },

    verdict(sys) {
        const { env, sc, m, p } = sys;
        if (sys.complaint) {
            return sys.complaint;
        }
        if (env.errors.length) {
            return 'an error was thrown: ' + env.errors[0];
        }
        const el = sys.app.el;
        const model = sc.multiple ? m.chosen : (m.chosen[0] ?? null);
        if (json(p.value) !== json(model)) {
            return `the model is ${json(p.value)}, expected ${json(model)}`;
        }
        const labels = m.chosen.map((v) => m.list.find((o) => json(o.value) === json(v)).label);
        const plain = (s) => text({ textContent: s });
        const value = text(el.querySelector('.vs-select-value'));
        const chips = all(el, '.vs-select-value .vs-chip').map(text);
        const wantChips = !sc.multiple ? [] : sc.collapse && labels.length > 1 ? [labels[0]] : labels;
        if (json(chips) !== json(wantChips.map(plain))) {
            return `the chips are ${json(chips)}, expected ${json(wantChips)}`;
        }
        const count = text(el.querySelector('.vs-select-collapsed-count'));
        const wantCount = sc.multiple && sc.collapse && labels.length > 1 ? '+' + (labels.length - 1) : null;
        if (count !== wantCount) {
            return `${json(count)} more are announced, expected ${json(wantCount)}`;
        }
        if (!labels.length ? value !== 'choose' : !sc.multiple && value !== plain(labels[0])) {
            return `the select shows ${json(value)}, expected ${json(labels[0] ?? 'choose')}`;
        }
        if (!!el.querySelector('.vs-select-clear-button') !== !!(sc.clear && labels.length)) {
            return 'the clear button is ' + (labels.length ? 'missing' : 'offered although nothing is chosen');
        }
        if (!!el.querySelector('.vs-select-icon-open') !== m.open) {
            return `the select looks ${m.open ? 'closed although it is open' : 'open although it is closed'}`;
        }
        const box = document.querySelector('.vs-select-options');
        if (!box ? m.open : !m.open && m.gone === null) {
            return `the list is ${box ? 'still on the page although closed' : 'not on the page although open'}`;
        }
        if (box && m.open) {
            const shown = optionNodes().map(text);
            const groups = groupsOf(sc, found(sys));
            const want = groups.flatMap((g) => g.items);
            if (json(shown) !== json(want.map((o) => plain(o.label)))) {
                return `the list offers ${json(shown)}, expected ${json(want.map((o) => o.label))}`;
            }
            const heads = all(box, '.vs-grouped-list-group').map(text);
            if (json(heads) !== json(sc.grouped ? groups.map((g) => g.name) : [])) {
                return `the groups are ${json(heads)}, expected ${json(groups.map((g) => g.name))}`;
            }
            for (const [i, o] of want.entries()) {
                const n = optionNodes()[i];
                const wrap = n.querySelector('.vs-select-option-wrap');
                if (wrap.classList.contains('selected') !== isChosen(sys, o)) {
                    return `option ${o.label} is ${isChosen(sys, o) ? 'not marked although chosen' : 'marked although not chosen'}`;
                }
                if (n.classList.contains('vs-disabled') !== o.blocked) {
                    return `option ${o.label} looks ${o.blocked ? 'allowed although it is not' : 'not allowed although it is'}`;
                }
            }
            const full = document.querySelector('.vs-select-all .vs-checkbox');
            if (!!full !== !!(sc.multiple && sc.all)) {
                return `the list ${full ? 'has' : 'has nothing'} to take all options with`;
            }
            if (full) {
                const can = want.filter((o) => !o.blocked);
                const on = can.length > 0 && can.every((o) => isChosen(sys, o));
                if (full.classList.contains('vs-checked') !== on) {
                    return `the mark for all options is ${on ? 'missing' : 'shown although not all are chosen'}`;
                }
            }
            const field = document.querySelector('.vs-select-search input');
            if (!!field !== !!sc.search) {
                return `the list ${field ? 'has a' : 'has no'} search field`;
            }
            if (field && field.value !== m.words) {
                return `the search field holds ${json(field.value)}, expected ${json(m.words)}`;
            }
            if (field) {
                const turns = all(document, '.vs-select-search .vs-search-input-toggle').length;
                const set = typeof sc.search === 'object' ? sc.search : {};
                const wantTurns = [set.useCaseSensitive, set.useRegex].filter((x) => x !== false).length;
                if (turns !== wantTurns || field.placeholder !== (set.placeholder || '')) {
                    return `the search field has ${turns} switches and the hint ${json(field.placeholder)}`;
                }
            }
            const active = all(document, '.vs-focusable-active');
            const name = (n) => (n.dataset.role === 'search' ? 'search' : n.dataset.role === 'select-all' ? 'all' : 'option ' + text(n));
            const lit = active.map(name);
            if (m.at !== '?' && (lit.length > 1 || (lit.length === 1 && lit[0] !== (m.on && plain(m.on))) || (sys.moved && m.on && !lit.length))) {
                return `the highlight rests on ${json(lit)}, expected ${json(m.on)}`;
            }
        }
        if (sys.focus) {
            sys.focus = false;
            if (document.activeElement !== trigger(sys)) {
                return 'the select does not hold the focus after Escape';
            }
        }
        return json([...sys.heard].sort()) === json([...sys.expected].sort()) ? null : `events ${json(sys.heard)}, expected ${json(sys.expected)}`;
    },

    state(sys) {
        const { m } = sys;
        return json([m.set, m.chosen, m.open, m.words, m.cased, m.regex, m.at, m.on, m.clears.length, m.gone !== null]);
    },
};
