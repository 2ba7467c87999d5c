// Colour schemes, style sets, sizes given as props, states, theme and radius ratio: what every component shows.
import { all, click, json } from '../lib/kit.mjs';

const OPTIONS = { options: ['a', 'b'], label: 'L', modelValue: undefined };
// name: [extra props, root, where variables show, where inline style shows]
const LOOKS = {
    VsAccordion: [{}, '.vs-accordion', 1, 1],
    VsAvatar: [{}, '.vs-avatar', 1, 1],
    VsBar: [{}, '.vs-bar', 0, 1],
    VsBlock: [{}, '.vs-block', 1, 1],
    VsButton: [{}, '.vs-button', 1, 1],
    VsCheckbox: [{ checkLabel: 'c' }, '.vs-checkbox', 1, 1],
    VsCheckboxSet: [OPTIONS, '.vs-checkbox-set', 0, 1],
    VsChip: [{}, '.vs-chip', 1, 1],
    VsDivider: [{}, '.vs-divider', 1, 1],
    VsDrawer: [{ modelValue: true }, '.vs-drawer', 1, 1],
    VsFileDrop: [{}, '.vs-file-drop', 1, 1],
    VsFooter: [{}, '.vs-footer', 0, 1],
    VsHeader: [{}, '.vs-header', 0, 1],
    VsInput: [{}, '.vs-input', 0, 1],
    VsLabelValue: [{}, '.vs-label-value', 1, 1],
    VsLoading: [{}, '.vs-loading', 1, 1],
    VsPagination: [{ length: 3 }, '.vs-pagination', 1, 1],
    VsProgress: [{ value: 1, max: 2 }, '.vs-progress', 1, 1],
    VsRadio: [{ radioValue: 'r', radioLabel: 'r' }, '.vs-radio', 1, 0],
    VsRadioSet: [OPTIONS, '.vs-radio-set', 0, 1],
    VsSelect: [OPTIONS, '.vs-select', 1, '.vs-select-trigger'],
    VsSkeleton: [{}, '.vs-skeleton', 0, 1],
    VsSteps: [{ steps: ['a', 'b'] }, '.vs-steps', 1, 1],
    VsSwitch: [{}, '.vs-switch', 1, 1],
    VsTable: [{ columns: ['a'], items: [{ a: 1 }] }, '.vs-table', 0, 1],
    VsTabs: [{ tabs: ['a', 'b'] }, '.vs-tabs', 1, 1],
    VsTextarea: [{}, '.vs-textarea', 0, 0],
};
const kebab = (name) => name.replace(/[A-Z]/g, (c) => '-' + c.toLowerCase()).slice(1);
const SETS = {
    one: { color: 'red', $own: '7px', $zero: 0, $part: { color: 'green' }, $unset: undefined, cursor: undefined },
    two: { color: 'blue', opacity: 0, $own: '9px', $other: '1px' },
    empty: {},
};
const SIZED = {
    VsBlock: ['.vs-block', ['height']],
    VsTabs: ['.vs-tabs', ['height']],
    VsSteps: ['.vs-steps', ['height']],
    VsLoading: ['.vs-loading', ['width', 'height']],
    VsImage: ['.vs-image', ['width', 'height']],
    VsGrid: ['.vs-grid', ['width', 'height']],
    VsHeader: ['.vs-header', ['height']],
    VsFooter: ['.vs-footer', ['height']],
};
const GIVEN = { 8: 8, '8.5': '8.5', half: '50%', em: '3em', zero: 0, unset: undefined };
const SIZES = ['xs', 'sm', 'md', 'lg', 'xl'];
const STATES = ['idle', 'info', 'success', 'warning', 'error'];
const MARKED = {
    VsInput: '.vs-input',
    VsTextarea: '.vs-textarea',
    VsSelect: '.vs-select',
    VsCheckbox: '.vs-checkbox',
    VsRadio: '.vs-radio',
    VsSwitch: '.vs-switch',
    VsFileDrop: '.vs-file-drop',
};
const GRADED = { VsButton: '.vs-button', VsChip: '.vs-chip', VsTabs: '.vs-tabs', VsInput: '.vs-input', VsSwitch: '.vs-switch', VsAccordion: '.vs-accordion', VsPagination: '.vs-pagination', VsTable: '.vs-table', VsCheckbox: '.vs-checkbox', VsRadio: '.vs-radio', VsLabelValue: '.vs-label-value' };
const THEME = 'vlossom:theme-mode';

const SCENARIOS = (deep) => [
    { name: 'every component, from nothing', kind: 'look', names: Object.keys(LOOKS), depth: 2 },
    { name: 'every component, from options', kind: 'look', names: Object.keys(LOOKS), from: { global: 'both', registered: 'one', set: 'named', scheme: 'unset' }, depth: 2 },
    { name: 'every component, own settings first', kind: 'look', names: Object.keys(LOOKS), from: { global: 'default', registered: 'two', set: 'own two', scheme: 'red' }, depth: deep ? 3 : 2 },
    { name: 'a few components, longer', kind: 'look', names: ['VsButton', 'VsTabs', 'VsInput'], depth: deep ? 4 : 3 },
    { name: 'sizes', kind: 'size', names: Object.keys(SIZED), depth: deep ? 4 : 3 },
    { name: 'parts of parts', kind: 'part', depth: deep ? 5 : 4 },
    { name: 'states', kind: 'state', names: Object.keys(MARKED), depth: deep ? 4 : 3 },
    { name: 'grades', kind: 'grade', names: Object.keys(GRADED), depth: deep ? 4 : 3 },
    { name: 'radius', kind: 'radius', depth: deep ? 5 : 4 },
    ...[undefined, 'light', 'dark'].flatMap((saved) =>
        [false, true].flatMap((system) =>
            [undefined, 'light', 'dark'].map((option) => ({ name: `theme, saved ${saved}, system ${system ? 'dark' : 'light'}, option ${option}`, kind: 'theme', saved, system, option, depth: deep ? 5 : 3 })),
        ),
    ),
];

const globalOf = (kind, names) => ({
    ...(kind === 'default' || kind === 'both' ? { default: 'teal' } : {}),
    ...(kind === 'each' || kind === 'both' ? Object.fromEntries(names.map((n) => [n, 'pink'])) : {}),
    ...(kind === 'others' ? { VsSomething: 'pink', default: 'lime' } : {}),
});
// a set that nothing asks for by name shows nowhere
const registeredOf = (kind, names) => (kind === 'nothing' ? {} : { default: Object.fromEntries(names.map((n) => [n, SETS.one])), named: Object.fromEntries(names.map((n) => [n, SETS[kind]])), other: Object.fromEntries(names.map((n) => [n, SETS.two])) });
const setOf = (m) => (m.registered === 'nothing' && ['named', 'other'].includes(m.set) ? {} : m.set === 'named' ? SETS[m.registered] : m.set === 'other' ? SETS.two : m.set.startsWith('own ') ? SETS[m.set.slice(4)] : {});

function themeStart(sys) {
    const saved = sys.env.storage.get(THEME);
    const { sc } = sys;
    return saved ? (saved === 'dark' ? 'dark' : 'light') : sc.system || sc.option === 'dark' ? 'dark' : 'light';
}

export default {
    id: 'P23',
    world: 'ui',
    method: 'every sequence, up to the depth, of changing colour scheme and style set props, application-wide schemes and registered style sets, sizes, states and the theme, on all components mounted together, and every start of the theme from saved, system and option values; what is rendered is compared after every step with the rules of precedence',
    assumptions: ['style sets use values that a style attribute can hold'],

    scenarios(tier) {
        return SCENARIOS(tier === 'thorough');
    },

    async start(env, sc) {
        const { h, shallowReactive } = env.vue;
        const sys = { env, sc, heard: 0, grades: {} };
        const m = (sys.m = { scheme: 'unset', global: 'none', set: 'unset', registered: 'empty', ...(sc.from ?? {}), given: 'unset', content: 'unset', state: 'idle', size: 'unset', ratio: 1 });
        if (sc.kind === 'theme') {
            sc.saved && env.storage.set(THEME, sc.saved);
            env.media['(prefers-color-scheme: dark)'] = sc.system;
            sys.m.theme = themeStart(sys);
        }
        const p = (sys.p = shallowReactive({ button: true }));
        const names = sc.names ?? [];
        sys.open = async () => {
            const lib = (sys.lib = env.instance());
            const options = { components: lib.VlossomComponents };
            if (sc.kind === 'look') {
                Object.assign(options, { colorScheme: globalOf(m.global, names), styleSet: registeredOf(m.registered, names) });
            }
            sc.option && (options.theme = sc.option);
            const set = () => {
                const s = m.set;
                return { set: s === 'unset' ? undefined : s.startsWith('own ') ? SETS[s.slice(4)] : s };
            };
            Object.assign(p, { scheme: m.scheme === 'unset' ? undefined : m.scheme, ...set() });
            sys.app = await env.mount(
                {
                    render() {
                        if (sc.kind === 'look') {
                            return h('main', names.map((n) => h('div', { class: 'is-' + n }, h(lib[n], { ...LOOKS[n][0], colorScheme: p.scheme, styleSet: p.set }))));
                        }
                        if (sc.kind === 'size') {
                            return h('main', names.map((n) => h('div', { class: 'is-' + n }, h(lib[n], { ...(LOOKS[n]?.[0] ?? {}), ...(n === 'VsImage' ? { src: 'x.png' } : {}), ...Object.fromEntries(SIZED[n][1].map((k) => [k, typeof p.given === 'number' && /Header|Footer/.test(n) ? String(p.given) : p.given])), styleSet: p.set }))));
                        }
                        if (sc.kind === 'state') {
                            return h('main', names.map((n) => h('div', { class: 'is-' + n }, h(lib[n], { ...(LOOKS[n]?.[0] ?? {}), state: p.state }))));
                        }
                        if (sc.kind === 'grade') {
                            return h('main', names.map((n) => h('div', { class: 'is-' + n }, h(lib[n], { ...(LOOKS[n]?.[0] ?? {}), size: p.size }))));
                        }
                        if (sc.kind === 'part') {
                            return h('main', [h(lib.VsPagination, { length: 3, styleSet: p.content }), h(lib.VsPagination, { length: 3 })]);
                        }
                        if (sc.kind === 'theme') {
                            return h('main', [p.button ? h(lib.VsThemeButton, { onChange: () => sys.heard++ }) : null]);
                        }
                        return h('main');
                    },
                },
                { plugins: [lib.createVlossom(options)] },
            );
            sys.vs = lib.useVlossom();
        };
        await sys.open();
        sys.frozen = json(SETS);
        if (sc.kind === 'size') {
            sys.base = sizes(sys);
        }
        if (sc.kind === 'part') {
            sys.base = parts(sys);
        }
        return sys;
    },

    enabled(sys) {
        const { m, sc } = sys;
        const other = (key, values) => values.filter((v) => v !== m[key]).map((v) => `${key}=${v}`);
        switch (sc.kind) {
            case 'look':
                return [
                    ...other('scheme', ['unset', 'red', 'none']),
                    ...other('global', ['none', 'default', 'each', 'both', 'others']),
                    ...other('set', ['unset', 'named', 'other', 'missing', 'own one', 'own two', 'own empty']),
                    ...other('registered', ['empty', 'one', 'two', 'nothing']),
                ];
            case 'size':
                return [...other('given', Object.keys(GIVEN)), ...other('set', ['unset', 'sized'])];
            case 'part':
                return other('content', ['unset', 'colour', 'padding', 'shallow', 'button']);
            case 'state':
                return other('state', STATES);
            case 'grade':
                return other('size', ['unset', ...SIZES]);
            case 'radius':
                return ['-1', '0', '0.4', '1', '7'].map((r) => 'ratio=' + r);
            default:
                return ['toggle', 'theme=dark', 'theme=light', ...(m.gone ? ['show button'] : ['click', 'hide button']), 'again'];
        }
    },

    async step(sys, action) {
        const { env, m, sc, p, vs } = sys;
        const eq = action.indexOf('=');
        const [key, value] = eq < 0 ? [action] : [action.slice(0, eq), action.slice(eq + 1)];
        sys.heard = 0;
        sys.expected = 0;
        const names = sc.names ?? [];
        if (sc.kind === 'theme') {
            const flip = m.theme === 'dark' ? 'light' : 'dark';
            if (key === 'again') {
                await sys.app.unmount();
                document.documentElement.classList.remove('vs-dark');
                document.querySelector('#vs-overlay-container')?.remove();
                m.theme = themeStart(sys);
                await sys.open();
                return;
            }
            if (key === 'toggle' || key === 'click') {
                m.theme = flip;
                m.saved = flip;
                sys.expected = key === 'click' ? 1 : 0;
                await env.act(() => (key === 'click' ? click(sys.app.el.querySelector('.vs-theme-button')) : vs.toggleTheme()));
            } else if (key === 'theme') {
                m.theme = value;
                await env.act(() => (vs.theme = value));
            } else {
                m.gone = key === 'hide button';
                await env.act(() => (p.button = !m.gone));
            }
            return;
        }
        m[key] = value;
        await env.act(() => {
            switch (key) {
                case 'scheme':
                    return (p.scheme = value === 'unset' ? undefined : value);
                case 'global':
                    return (vs.colorScheme = globalOf(value, names));
                case 'registered':
                    return (vs.styleSet = registeredOf(value, names));
                case 'set':
                    return (p.set = value === 'unset' ? undefined : value === 'sized' ? { height: '33px', width: '44px' } : value.startsWith('own ') ? SETS[value.slice(4)] : value);
                case 'given':
                    return (p.given = GIVEN[value]);
                case 'content':
                    return (p.content = { unset: undefined, colour: { $controlButton: { $content: { color: 'red' } } }, padding: { $controlButton: { $content: { padding: '9px' } } }, shallow: { color: 'red' }, button: { $controlButton: { color: 'red' } } }[value]);
                case 'ratio':
                    return (vs.radiusRatio = Number(value));
                case 'size':
                    return (p.size = value === 'unset' ? undefined : value);
                default:
                    return (p[key] = value);
            }
        });
    },

    verdict(sys) {
        const { env, m, sc, vs } = sys;
        if (env.errors.length) {
            return `error: ${env.errors[0]}`;
        }
        if (json(SETS) !== sys.frozen && sys.frozen) {
            return `a style set given by the application was changed: ${json(SETS)}`;
        }
        for (const name of sc.names ?? []) {
            const at = sys.app.el.querySelector('.is-' + name);
            const complain = (what) => `${name}: ${what} [${json(m)}]`;
            if (sc.kind === 'look') {
                const [, rootSel, vars, inline] = LOOKS[name];
                const root = at.querySelector(rootSel);
                if (!root) {
                    return complain('nothing rendered');
                }
                const g = globalOf(m.global, sc.names);
                const want = m.scheme === 'none' ? 'default' : m.scheme !== 'unset' ? m.scheme : (g[name] ?? g.default ?? 'default');
                const got = [...new Set([...root.classList].filter((c) => c.startsWith('vs-cs-')))].join(' ');
                if (got !== 'vs-cs-' + want) {
                    return complain(`colour scheme is ${got}, expected ${want}`);
                }
                const s = setOf(m);
                if (vars) {
                    const read = (k) => root.style.getPropertyValue(`--${kebab(name)}-${k}`);
                    for (const k of ['own', 'zero', 'other', 'part', 'unset', 'color']) {
                        const v = s['$' + k];
                        const expected = v === undefined || typeof v === 'object' ? '' : String(v);
                        if (read(k) !== expected) {
                            return complain(`variable ${k} is ${json(read(k))}, expected ${json(expected)}`);
                        }
                    }
                }
                if (inline) {
                    const el = inline === 1 ? root : at.querySelector(inline);
                    for (const k of ['color', 'opacity', 'cursor']) {
                        const expected = s[k] === undefined ? '' : String(s[k]);
                        if (el.style[k] !== expected) {
                            return complain(`style ${k} is ${json(el.style[k])}, expected ${json(expected)}`);
                        }
                    }
                }
            }
            if (sc.kind === 'state') {
                const got = [...new Set(all(at, '*').flatMap((e) => [...e.classList].filter((c) => c.startsWith('vs-state-') && c !== 'vs-state-box')))].join(' ');
                const want = m.state === 'idle' ? '' : 'vs-state-' + m.state;
                if (got !== want) {
                    return complain(`state shown is ${json(got)}, expected ${json(want)}`);
                }
            }
            if (sc.kind === 'grade') {
                const got = SIZES.filter((s) => at.querySelector(GRADED[name]).classList.contains('vs-' + s)).join(' ');
                sys.grades[name] ??= got;
                if (got !== (m.size === 'unset' ? sys.grades[name] : m.size)) {
                    return complain(`size shown is ${json(got)}`);
                }
            }
        }
        if (sc.kind === 'size' && sys.base) {
            const now = sizes(sys);
            for (const name of sc.names) {
                for (const k of SIZED[name][1]) {
                    const v = GIVEN[m.given];
                    const bar = /Header|Footer/.test(name);
                    const own = v !== undefined && !(bar && v === '');
                    const px = typeof v === 'number' || /^[\d.]+$/.test(v ?? '');
                    if (bar && own && px) {
                        continue;
                    }
                    const want = own ? (v === 0 ? '0px' : px ? v + 'px' : v) : m.set === 'sized' ? { height: '33px', width: '44px' }[k] : sys.base[name][k];
                    if (now[name][k] !== want) {
                        return `${name}: ${k} is ${json(now[name][k])}, expected ${json(want)} [${json(m)}]`;
                    }
                }
            }
        }
        if (sc.kind === 'part' && sys.base) {
            const [mine, others] = parts(sys);
            const [base] = sys.base;
            const want = { ...base };
            m.content === 'colour' && (want.color = 'red');
            m.content === 'padding' && (want.padding = '9px');
            m.content === 'shallow' && (want.root = 'red');
            m.content === 'button' && (want.button = 'red');
            if (json(mine) !== json(want)) {
                return `parts of the page buttons look like ${json(mine)}, expected ${json(want)}`;
            }
            if (json(others) !== json(sys.base[1])) {
                return `page buttons without a style set changed to ${json(others)}`;
            }
        }
        if (sc.kind === 'radius') {
            const want = Math.max(0, Math.min(1, Number(m.ratio)));
            if (vs.radiusRatio !== want) {
                return `radius ratio is ${vs.radiusRatio}, expected ${want}`;
            }
        }
        if (sc.kind === 'theme') {
            const dark = document.documentElement.classList.contains('vs-dark');
            if (vs.theme !== m.theme || dark !== (m.theme === 'dark')) {
                return `theme is ${vs.theme} and the page is ${dark ? 'dark' : 'light'}, expected ${m.theme}`;
            }
            const saved = env.storage.get(THEME);
            if (saved !== (m.saved ?? sc.saved)) {
                return `the saved theme is ${saved}, expected ${m.saved ?? sc.saved}`;
            }
            if (sys.heard !== (sys.expected ?? 0)) {
                return `the theme button reported ${sys.heard} changes, expected ${sys.expected ?? 0}`;
            }
            const b = sys.app.el.querySelector('.vs-theme-button');
            if (!!b === !!m.gone) {
                return 'the theme button is not shown as asked';
            }
            if (b) {
                const on = ['light', 'dark'].filter((t) => b.querySelector('.vs-theme-' + t).classList.contains('vs-on')).join();
                const label = b.getAttribute('aria-label');
                if (on !== m.theme || !label.includes(m.theme === 'dark' ? 'light' : 'dark')) {
                    return `the theme button shows ${on} (${label}), expected ${m.theme}`;
                }
            }
        }
        return null;
    },

    state: (sys) => json([sys.m, sys.sc.name]),
};

function sizes(sys) {
    return Object.fromEntries(
        sys.sc.names.map((n) => {
            const el = sys.app.el.querySelector('.is-' + n + ' ' + SIZED[n][0]);
            return [n, Object.fromEntries(SIZED[n][1].map((k) => [k, el.style[k]]))];
        }),
    );
}
function parts(sys) {
    return all(sys.app.el, '.vs-pagination').map((root) => {
        const button = root.querySelector('.vs-pagination-control-button');
        const content = button.querySelector('.vs-button-content') ?? button.firstElementChild;
        return { root: root.style.color, button: button.style.color, color: content.style.color, padding: content.style.padding };
    });
}
