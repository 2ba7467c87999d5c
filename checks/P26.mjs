// Sizes: widths, heights, gaps and columns, in every notation, for every component that takes them.
import { all, json, product, text } from '../lib/kit.mjs';

const LEVELS = ['xs', 'sm', 'md', 'lg', 'xl'];
const UNSET = '(not given)';

// what is passed and the length it means
const LENGTHS = [
    [UNSET, null],
    [0, '0px'],
    [7, '7px'],
    ['7', '7px'],
    [12.5, '12.5px'],
    ['12.5', '12.5px'],
    ['100', '100px'],
    [1024, '1024px'],
    ['50%', '50%'],
    ['3rem', '3rem'],
    ['7px', '7px'],
    ['auto', 'auto'],
];
const lengthOf = (v) => (v === null || v === undefined || v === '' ? null : typeof v === 'number' || /^\d+(\.\d+)?$/.test(v) ? v + 'px' : v);
const columnsOf = (v) => (v === null || v === undefined || v === '' ? null : String(v));

// every choice of named breakpoints, in plain and mixed notation, some of them named but left open
const MIX = { width: [{ xs: 10, sm: '20', md: '30%', lg: 40.5, xl: '5rem' }, { xs: '100%', sm: 0, md: '2em', lg: '12.5', xl: 900 }], grid: [{ xs: 1, sm: '2', md: 3, lg: '4', xl: 12 }, { xs: '12', sm: 6, md: '5', lg: 2, xl: 1 }] };
const OPEN = [undefined, null, ''];
function breakpoints(kind) {
    const out = [];
    for (let bits = 0; bits < 32; bits++) {
        for (const mix of MIX[kind]) {
            out.push(Object.fromEntries(LEVELS.filter((_, i) => bits & (1 << i)).map((l) => [l, mix[l]])));
        }
        out.push(Object.fromEntries(LEVELS.map((l, i) => [l, bits & (1 << i) ? MIX[kind][0][l] : OPEN[(bits + i) % 3]])));
    }
    return out;
}
const WIDTHS = [...LENGTHS.map(([v]) => v), null, '', ...breakpoints('width')];
const GRIDS = [UNSET, 1, 6, 12, '1', '8', null, '', ...breakpoints('grid')];

const RESPONSIVE = {
    VsResponsive: {},
    VsBlock: {},
    VsAccordion: {},
    VsLabelValue: {},
    VsTabs: { tabs: ['a', 'b'] },
    VsSteps: { steps: ['a', 'b'] },
    VsInput: {},
    VsTextarea: {},
    VsSearchInput: {},
    VsSelect: { options: ['a', 'b'] },
    VsCheckbox: { checkLabel: 'a' },
    VsCheckboxSet: { options: ['a', 'b'] },
    VsRadio: { radioLabel: 'a', radioValue: 'a', name: 'n' },
    VsRadioSet: { options: ['a', 'b'], name: 'n' },
    VsSwitch: {},
    VsDatePicker: {},
    VsFileDrop: {},
};

// as the style sheet reads it: the named widths of all breakpoints reached, the largest last
function effective(el) {
    const inline = (p) => el.style.getPropertyValue(p);
    const one = (kind, start, fixed) =>
        LEVELS.map((_, reached) => {
            let v = inline(`--vs-${kind}-xs`) || start;
            for (const l of LEVELS.slice(1, reached + 1)) {
                if (el.classList.contains(`vs-${kind}-${l}`)) {
                    v = inline(`--vs-${kind}-${l}`) || 'invalid';
                }
            }
            return fixed || v;
        });
    return { width: one('width', '100%', inline('width')), grid: one('grid', '12', '') };
}

function expected(width, grid) {
    const one = (given, read, start) => {
        const value = given === UNSET ? undefined : given;
        const isMap = value !== null && typeof value === 'object';
        let v = (isMap ? read(value.xs) : read(value)) ?? start;
        return LEVELS.map((l) => (v = (isMap ? read(value[l]) : null) ?? v));
    };
    return { width: one(width, lengthOf, '100%'), grid: one(grid, columnsOf, '12') };
}

const given = (props) => Object.fromEntries(Object.entries(props).filter(([, v]) => v !== UNSET));

// single sizes: component, prop, what else it needs, where it shows, which style
const SINGLE = [
    ...['VsBlock', 'VsTabs', 'VsSteps', 'VsImage', 'VsGrid', 'VsLoading'].map((c) => [c, 'height', '.it', 'height']),
    ...['VsImage', 'VsGrid', 'VsLoading'].map((c) => [c, 'width', '.it', 'width']),
    ['VsTextWrap', 'width', '.it', 'width'],
    ['VsVisibleRender', 'height', '.it', 'height'],
    ['VsGrid', 'columnGap', '.it', 'column-gap'],
    ['VsGrid', 'rowGap', '.it', 'row-gap'],
];
const NEEDS = { VsTabs: { tabs: ['a', 'b'] }, VsSteps: { steps: ['a', 'b'] }, VsImage: { src: 'x.png' } };
// these take a size of 0 for none
const NONE = { 'VsTextWrap.width': true, 'VsVisibleRender.height': true };

const MODAL = { width: { xs: '20%', sm: '30%', md: '45%', lg: '70%', xl: '90%' }, height: { xs: '20%', sm: '30%', md: '50%', lg: '66%', xl: '80%' } };
const MODAL_SIZES = [...LEVELS, 300, '300', '20rem', '55%'];

const FILES = [0, 1, 512, 1000, 1023, 1024, 1025, 1536, 2047, 10240, 123456, 1048575, 1048576, 1572864, 5 * 1048576 + 5243, 1073741823, 1073741824, 1610612736, 1099511627776, 2.5 * 1099511627776];
function fileSize(bytes) {
    const units = ['Bytes', 'KB', 'MB', 'GB', 'TB'];
    let n = bytes;
    let i = 0;
    while (n >= 1024 && i < 4) {
        n /= 1024;
        i++;
    }
    return `${Math.round(n * 100) / 100} ${units[i]}`;
}

const COLUMN = [undefined, 80, '80', '20%', '12.5'];

async function mounted(env, build) {
    const { h, shallowReactive } = env.vue;
    const lib = env.instance();
    const p = shallowReactive({});
    const app = await env.mount({ render: () => h('main', [build(lib, p, h)]) }, { plugins: [lib.createVlossom({ components: lib.VlossomComponents })] });
    return { lib, app, p };
}

const normal = (property, value) => {
    const probe = document.createElement('div');
    probe.style.setProperty(property, value ?? '');
    return probe.style.getPropertyValue(property);
};

const KINDS = {
    'widths and columns': {
        cases: () => [...Object.keys(RESPONSIVE).flatMap((c) => WIDTHS.map((w, i) => [c, w, GRIDS[i % GRIDS.length]])), ...Object.keys(RESPONSIVE).flatMap((c) => GRIDS.map((g, i) => [c, WIDTHS[(i * 7) % WIDTHS.length], g]))],
        async run(env, [name, width, grid]) {
            const { app } = await mounted(env, (lib, p, h) => h(lib[name], { ...RESPONSIVE[name], ...given({ width, grid }) }));
            const roots = all(app.el, '.vs-responsive');
            if (!roots.length) {
                return 'nothing takes the width';
            }
            const got = effective(roots[0]);
            const want = expected(width, grid);
            return json(got) === json(want) ? null : `takes ${json(got)}, expected ${json(want)}`;
        },
    },
    'single sizes': {
        cases: () => SINGLE.flatMap((s) => LENGTHS.map(([value, length]) => [...s, value, length])),
        async run(env, [name, prop, selector, style, value, length]) {
            const { app } = await mounted(env, (lib, p, h) => h(lib[name], { class: 'it', ...NEEDS[name], ...given({ [prop]: value }) }));
            const el = app.el.querySelector(selector);
            const got = el.style.getPropertyValue(style);
            const want = NONE[`${name}.${prop}`] && value === 0 ? '' : normal(style, length);
            return got === want ? null : `${style} is '${got}', expected '${want}'`;
        },
    },
    'columns of a grid': {
        cases: () => [UNSET, 1, 6, '8', 24].map((v) => [v]),
        async run(env, [gridSize]) {
            const { app } = await mounted(env, (lib, p, h) => h(lib.VsGrid, { class: 'it', ...given({ gridSize }) }));
            const vars = [...app.el.querySelector('.it').style].filter((k) => k.startsWith('--'));
            const got = vars.map((k) => app.el.querySelector('.it').style.getPropertyValue(k));
            const want = gridSize === UNSET ? [] : [String(gridSize)];
            return json(got) === json(want) ? null : `the number of columns is ${json(got)}, expected ${json(want)}`;
        },
    },
    'sizes of a modal': {
        cases: () => [[UNSET], ...MODAL_SIZES.map((s) => [s]), ...product([undefined, ...MODAL_SIZES], [undefined, ...MODAL_SIZES]).map(([width, height]) => [{ ...(width === undefined ? {} : { width }), ...(height === undefined ? {} : { height }) }])].flatMap((c) => ['VsModal', 'plugin'].map((by) => [by, ...c])),
        async run(env, [by, size]) {
            const box = {};
            const { app, lib } = await mounted(env, (lib, p, h) => (by === 'VsModal' ? h(lib.VsModal, { modelValue: true, ...given({ size }) }, () => 'text') : null));
            if (by === 'plugin') {
                await env.act(() => void lib.useVlossom().modal.open('text', given({ size })));
            }
            await env.advance(1000);
            const wraps = all(document, '.vs-modal-wrap');
            const wrap = wraps[0];
            if (!wrap) {
                return 'the modal is not there';
            }
            const one = (axis) => {
                const v = size === UNSET ? null : typeof size === 'object' ? (size[axis] ?? 'md') : size;
                return v === null ? '' : normal(axis, MODAL[axis][v] ?? lengthOf(v));
            };
            const got = [wrap.style.width, wrap.style.height];
            const want = [one('width'), one('height')];
            return json(got) === json(want) ? null : `is ${json(got)}, expected ${json(want)}`;
        },
    },
    'columns of a table': {
        cases: () => product(COLUMN, COLUMN, COLUMN),
        async run(env, [width, minWidth, maxWidth]) {
            const columns = [
                { key: 'a', label: 'A', width, minWidth, maxWidth },
                { key: 'b', label: 'B' },
            ];
            const { app } = await mounted(env, (lib, p, h) => h(lib.VsTable, { columns, items: [{ id: 1, a: 1, b: 2 }] }));
            const l = lengthOf;
            const one = width ? l(width) : minWidth && maxWidth ? `minmax(${l(minWidth)}, ${l(maxWidth)})` : minWidth ? `minmax(${l(minWidth)}, 1fr)` : maxWidth ? `minmax(auto, ${l(maxWidth)})` : '1fr';
            const want = `${one} 1fr`;
            const seen = all(app.el, '*')
                .map((el) => el.style?.gridTemplateColumns || el.style?.getPropertyValue?.('grid-template-columns'))
                .filter(Boolean);
            return seen.length === 2 && seen.every((s) => s === want || s.startsWith(want + ' ')) ? null : `the columns are ${json(seen)}, expected ${json(want)} twice`;
        },
    },
    'sizes of files': {
        cases: () => FILES.map((f) => [f]),
        async run(env, [bytes]) {
            const file = new File(['x'], 'f.txt');
            Object.defineProperty(file, 'size', { value: bytes });
            const { app, lib } = await mounted(env, (lib, p, h) => h(lib.VsFileDrop, { modelValue: [file] }));
            await env.advance(10);
            const got = text(app.el.querySelector('.vs-file-drop-file-size'));
            const want = `(${fileSize(bytes)})`;
            if (lib.stringUtil.toFileSizeFormat(bytes) !== fileSize(bytes)) {
                return `the size reads ${lib.stringUtil.toFileSizeFormat(bytes)}, expected ${fileSize(bytes)}`;
            }
            return got === want ? null : `the size reads ${got}, expected ${want}`;
        },
    },
};

// ------------------------------------------------------------------ one size after another
const AFTER = {
    'width=none': ['width', UNSET],
    'width=40': ['width', 40],
    'width=50%': ['width', '50%'],
    'width=by breakpoint': ['width', { xs: 10, md: '30%' }],
    'width=by other breakpoints': ['width', { sm: '20', xl: 99 }],
    'grid=none': ['grid', UNSET],
    'grid=6': ['grid', 6],
    'grid=by breakpoint': ['grid', { xs: 12, lg: '3' }],
    'grid=by other breakpoints': ['grid', { sm: 2, md: 4 }],
};

export default {
    id: 'P26',
    world: 'ui',
    method: 'every component that takes a size is given every notation of it and every choice of breakpoints, and every sequence of sizes up to the depth; the size it then has at every breakpoint is compared with the one given',
    assumptions: ['the style sheet applies a named breakpoint from its width upwards'],

    scenarios(tier) {
        const deep = tier === 'thorough';
        return [
            ...Object.keys(KINDS).map((name) => ({ name, enumerate: true })),
            ...['VsResponsive', 'VsBlock', 'VsInput', 'VsTabs'].map((component) => ({ name: `${component}, one size after another`, component, depth: deep ? 5 : 4 })),
        ];
    },

    enumerator(env, sc) {
        const kind = KINDS[sc.name];
        const cases = kind.cases();
        return {
            total: cases.length,
            async evaluate(i) {
                let violation = await kind.run(env, cases[i]);
                violation ??= env.errors.length ? `error: ${env.errors[0]}` : null;
                const what = json(cases[i]);
                await env.reset();
                return { state: json([sc.name, cases[i]]), sample: what, outcome: what, violation: violation && `${what}: ${violation}` };
            },
        };
    },

    async start(env, sc) {
        const sys = { env, sc, m: { width: UNSET, grid: UNSET } };
        const { app, p } = await mounted(env, (lib, p, h) => h(lib[sc.component], { ...RESPONSIVE[sc.component], ...given({ width: p.width ?? UNSET, grid: p.grid ?? UNSET }) }));
        sys.app = app;
        sys.p = p;
        return sys;
    },
    enabled: (sys) => Object.keys(AFTER).filter((a) => sys.m[AFTER[a][0]] !== AFTER[a][1]),
    async step(sys, action) {
        const [prop, value] = AFTER[action];
        sys.m[prop] = value;
        await sys.env.act(() => (sys.p[prop] = value));
    },
    verdict(sys) {
        if (sys.env.errors.length) {
            return `error: ${sys.env.errors[0]}`;
        }
        const got = effective(sys.app.el.querySelector('.vs-responsive'));
        const want = expected(sys.m.width, sys.m.grid);
        return json(got) === json(want) ? null : `takes ${json(got)}, expected ${json(want)}`;
    },
    state: (sys) => json([sys.sc.name, sys.m]),
};
