// Two-way binding: the bound model and what the page shows always agree with the last write, normalised.
import { drivers, file } from '../lib/inputs.mjs';
import { all, click, json, nativeToggle, text, typeInto } from '../lib/kit.mjs';

const empty = (v) => v === undefined || v === null || v === '';
const str = (f) => (v) => (empty(v) ? '' : f(String(v)));
const inputOf = (el) => el.querySelector('input');
const typed = (sel, list) => list.map((v) => ['type ' + json(v), (el) => typeInto(el.querySelector(sel), v), v]);

const twin = (i) => file('same.txt', 'text/plain', 'x'.repeat(i + 1));

// choices whose list of options is replaced while something is chosen
function offers() {
    const pools = {
        words: { values: ['x', 'y', 'z'], lists: [[0, 1, 2], [1, 2], [2, 0]] },
        falsy: { values: [0, '', false, 5], lists: [[0, 1, 2, 3], [3, 0], [2, 1]] },
        objects: { values: [{ a: 1 }, { a: 2 }, { a: 1, b: 1 }], lists: [[0, 1, 2], [0, 2], [1]] },
    };
    const labels = (pool, list) => list.map((i) => ({ label: 'o' + i, value: structuredClone(pool.values[i]) }));
    const out = [];
    for (const [kind, pool] of Object.entries(pools)) {
        for (const [name, comp, multiple] of [['radio set', 'VsRadioSet'], ['checkbox set', 'VsCheckboxSet', true], ['select', 'VsSelect'], ['select several', 'VsSelect', true]]) {
            for (const bare of kind === 'objects' ? [false] : [false, true]) {
                const on = (v) => pool.values.map((x) => (multiple ? v.some((y) => json(y) === json(x)) : json(v) === json(x)));
                const at = (sys) => pool.lists[sys.list];
                const kept = (v, n) => {
                    const has = (x) => pool.lists[n].some((i) => json(pool.values[i]) === json(x));
                    return multiple ? v.filter(has) : has(v) ? v : null;
                };
                const pick = (x) => structuredClone(pool.values[x]);
                out.push({
                    name: `${name}, other ${kind} offered${bare ? ', plain options' : ''}`,
                    comp,
                    props: { ...(bare ? {} : { optionLabel: 'label', optionValue: 'value' }), ...(comp === 'VsSelect' ? { multiple: !!multiple } : { name: 'n' }) },
                    offered: (n) => (bare ? pool.lists[n].map((i) => pick(i)) : labels(pool, pool.lists[n])),
                    lists: pool.lists.length,
                    init: multiple ? [] : null,
                    writes: multiple ? [[pick(0)], [pick(1), pick(2)], [pick(2), pick(0)]] : pool.values.map((x, i) => pick(i)),
                    edits: [],
                    norm: (v, sys) => (comp === 'VsSelect' ? kept(v, sys.list) : v),
                    kept,
                    show: (el, sys) => {
                        if (comp === 'VsSelect') {
                            return json(multiple ? all(el, '.vs-select-trigger .vs-chip').map(text) : drivers.VsSelect.shown(el));
                        }
                        return json(all(el, 'input').map((x) => x.checked));
                    },
                    view: (v, sys) => {
                        const name = (x) => (bare ? String(x) : 'o' + pool.values.findIndex((y) => json(y) === json(x)));
                        if (comp === 'VsSelect') {
                            return json(multiple ? v.map(name) : v === null ? null : name(v));
                        }
                        return json(at(sys).map((i) => on(v)[i]));
                    },
                    cleared: multiple ? [] : null,
                });
            }
        }
    }
    return out;
}

const fresh = (v) => (Array.isArray(v) ? [...v] : v); // the page may change a bound list in place

export function variants() {
    const id = (x) => x;
    const up = (x) => x.toUpperCase();
    const text1 = (name, comp, sel, props, f) => ({
        name,
        comp,
        props,
        init: '',
        writes: ['b', comp === 'VsInput' ? null : '', 'aB cD'],
        edits: [...typed(sel, ['a', 'aB cD', '']), ...(comp === 'VsInput' ? [['clear button', (el) => click(el.querySelector('.vs-clear-button')), '']] : [])],
        norm: str(f),
        show: (el) => el.querySelector(sel).value,
        view: (v) => v,
        cleared: '',
    });
    const bool = (name, comp, cls, props, t, f) => ({
        name,
        comp,
        props,
        init: f,
        writes: [t, f, null],
        edits: [['click', (el) => nativeToggle(inputOf(el)), (v) => (json(v) === json(t) ? f : t)]],
        norm: (v) => (v === null || v === undefined ? f : v),
        show: (el) => [el.querySelector(cls).classList.contains('vs-checked'), inputOf(el).checked].join(),
        view: (v) => [json(v) === json(t), json(v) === json(t)].join(),
        cleared: f,
    });
    const many = (name, comp, cls) => ({
        name,
        comp,
        props: { multiple: true, trueValue: 'x', name: 'n' },
        init: ['w'],
        writes: [['x'], ['w', 'x'], []],
        edits: [['click', (el) => nativeToggle(inputOf(el)), (v) => (v.includes('x') ? v.filter((o) => o !== 'x') : [...v, 'x'])]],
        norm: id,
        show: (el) => String(el.querySelector(cls).classList.contains('vs-checked')),
        view: (v) => String(v.includes('x')),
        cleared: [],
    });
    const set = ['x', 'y', 'z'];
    return [
        text1('text field', 'VsInput', 'input', {}, id),
        text1('text field, upper', 'VsInput', 'input', { modelModifiers: { upper: true } }, up),
        text1('text field, lower', 'VsInput', 'input', { modelModifiers: { lower: true } }, (x) => x.toLowerCase()),
        text1('text field, capitalize', 'VsInput', 'input', { modelModifiers: { capitalize: true } }, (x) => x[0].toUpperCase() + x.slice(1)),
        text1('text field, capitalize and upper', 'VsInput', 'input', { modelModifiers: { capitalize: true, upper: true } }, (x) => x.toUpperCase()),
        {
            name: 'number field',
            comp: 'VsInput',
            props: { type: 'number' },
            init: null,
            writes: [0, 12, null, '3'],
            edits: typed('input', ['1', '12', '0', '']).map(([l, f, v]) => [l, f, v === '' ? null : Number(v)]),
            norm: (v) => (empty(v) ? null : Number(v)),
            show: (el) => inputOf(el).value,
            view: (v) => (v === null ? '' : String(v)),
            cleared: null,
        },
        text1('text area', 'VsTextarea', 'textarea', {}, id),
        text1('text area, upper', 'VsTextarea', 'textarea', { modelModifiers: { upper: true } }, up),
        bool('checkbox', 'VsCheckbox', '.vs-checkbox', {}, true, false),
        bool('checkbox, custom values', 'VsCheckbox', '.vs-checkbox', { trueValue: 'Y', falseValue: 'N' }, 'Y', 'N'),
        bool('checkbox, object values', 'VsCheckbox', '.vs-checkbox', { trueValue: { a: 1 }, falseValue: { a: 0 } }, { a: 1 }, { a: 0 }),
        many('checkbox in a list', 'VsCheckbox', '.vs-checkbox'),
        bool('switch', 'VsSwitch', '.vs-switch', {}, true, false),
        bool('switch, custom values', 'VsSwitch', '.vs-switch', { trueValue: 1, falseValue: 0 }, 1, 0),
        many('switch in a list', 'VsSwitch', '.vs-switch'),
        {
            name: 'radio',
            comp: 'VsRadio',
            props: { radioValue: 'r', name: 'n' },
            init: null,
            writes: ['r', null, 'other'],
            edits: [['click', (el) => nativeToggle(inputOf(el)), 'r']],
            norm: id,
            show: (el) => String(inputOf(el).checked),
            view: (v) => String(v === 'r'),
            cleared: null,
        },
        {
            name: 'radio set',
            comp: 'VsRadioSet',
            props: { options: set, name: 'n' },
            init: null,
            writes: ['y', null],
            edits: set.map((o, i) => ['choose ' + o, (el) => nativeToggle(all(el, 'input')[i]), o]),
            norm: id,
            show: (el) => json(all(el, 'input').map((x) => x.checked)),
            view: (v) => json(set.map((o) => o === v)),
            cleared: null,
        },
        {
            name: 'checkbox set',
            comp: 'VsCheckboxSet',
            props: { options: set, name: 'n' },
            init: [],
            writes: [['y'], ['z', 'x'], []],
            edits: set.map((o, i) => ['toggle ' + o, (el) => nativeToggle(all(el, 'input')[i]), (v) => (v.includes(o) ? v.filter((x) => x !== o) : [...v, o])]),
            norm: id,
            show: (el) => json(all(el, '.vs-checkbox').map((x) => x.classList.contains('vs-checked'))),
            view: (v) => json(set.map((o) => v.includes(o))),
            cleared: [],
        },
        {
            name: 'select',
            comp: 'VsSelect',
            props: { options: set },
            init: null,
            writes: ['y', null, 'nope'],
            edits: ['x', 'y'].map((o) => ['choose ' + o, (el, env) => drivers.VsSelect.edit(el, o, env), o, 'async']),
            norm: (v) => (set.includes(v) ? v : null),
            show: (el) => drivers.VsSelect.shown(el),
            view: (v) => v,
            cleared: null,
        },
        {
            name: 'select, falsy option values',
            comp: 'VsSelect',
            props: {
                options: [{ l: 'zero', v: 0 }, { l: 'no', v: false }, { l: 'blank', v: '' }],
                optionLabel: 'l',
                optionValue: 'v',
            },
            init: null,
            writes: [0, false, ''],
            edits: [['zero', 0], ['no', false]].map(([o, v]) => ['choose ' + o, (el, env) => drivers.VsSelect.edit(el, o, env), v, 'async']),
            norm: id,
            show: (el) => drivers.VsSelect.shown(el),
            view: (v) => (v === null ? null : { 0: 'zero', false: 'no', '': 'blank' }[String(v)]),
            cleared: null,
        },
        {
            name: 'select, several',
            comp: 'VsSelect',
            props: { options: set, multiple: true },
            init: [],
            writes: [['y'], ['z', 'x'], null, ['nope', 'y']],
            edits: ['x', 'y'].map((o) => [
                'toggle ' + o,
                (el, env) => drivers.VsSelect.edit(el, o, env),
                (v) => (v.includes(o) ? v.filter((x) => x !== o) : [...v, o]),
                'async',
            ]),
            norm: (v) => (v === null ? [] : v.filter((o) => set.includes(o))),
            show: (el) => json(all(el, '.vs-select-trigger .vs-chip').map(text)),
            view: (v) => json(v),
            cleared: [],
        },
        {
            name: 'file drop',
            comp: 'VsFileDrop',
            props: { multiple: true },
            init: [],
            writes: [[file('b.txt')], []],
            edits: [
                ['drop a', (el) => drivers.VsFileDrop.edit(el, [file('a.txt')]), [file('a.txt')]],
                ['drop a and b', (el) => drivers.VsFileDrop.edit(el, [file('a.txt'), file('b.txt')]), [file('a.txt'), file('b.txt')]],
                ['remove first', (el) => el.querySelector('.vs-chip-close-button') && click(el.querySelector('.vs-chip-close-button')), (v) => v.slice(1)],
            ],
            norm: id,
            show: (el) => json(all(el, '.vs-file-drop-file-name').map(text)),
            view: (v) => json(v.map((f) => f.name)),
            cleared: [],
        },
        {
            // different files that share a name and a type
            name: 'file drop, files of one name',
            comp: 'VsFileDrop',
            props: { multiple: true },
            init: [],
            writes: [[twin(0)], [twin(1)], [twin(0), twin(1)]],
            edits: [
                ['drop first', (el) => drivers.VsFileDrop.edit(el, [twin(0)]), [twin(0)]],
                ['drop second', (el) => drivers.VsFileDrop.edit(el, [twin(1)]), [twin(1)]],
            ],
            norm: id,
            show: (el) => json(all(el, '.vs-file-drop-file-name').map(text)),
            view: (v) => json(v.map((f) => f.name)),
            cleared: [],
        },
        {
            name: 'date picker',
            comp: 'VsDatePicker',
            props: {},
            init: '',
            writes: ['2024-02-03', '', 'garbage'],
            edits: typed('input', ['2024-01-01', '']),
            norm: id,
            show: (el) => inputOf(el).value,
            view: (v) => (v === 'garbage' ? '' : v),
            cleared: '',
            refuses: (v, e) => v === 'garbage' && e === '', // emptying what already shows empty is no edit
        },
        {
            name: 'toggle button',
            comp: 'VsToggle',
            props: {},
            init: false,
            writes: [true, false],
            edits: [['click', (el) => click(el.querySelector('button')), (v) => !v]],
            norm: id,
            show: () => '',
            view: () => '',
        },
        {
            name: 'search field',
            comp: 'VsSearchInput',
            props: {},
            init: '',
            writes: ['b', ''],
            edits: typed('input', ['a', 'ab', '']),
            norm: id,
            show: (el) => inputOf(el).value,
            view: (v) => v,
            cleared: '',
            settle: 450,
        },
    ];
}

export default {
    id: 'P05',
    world: 'ui',
    method: 'every sequence, up to the depth, of user edits, parent writes (also two in one tick, or one in the tick of an edit) and clear calls on each real mounted input with a bound model; the oracle is the last write, normalised',
    assumptions: ['the parent echoes every model update, as v-model does'],

    scenarios(tier) {
        const deep = tier === 'thorough';
        return [
            ...variants().map((v) => ({ name: v.name, depth: deep ? 4 : 3 })),
            ...offers().map((v) => ({ name: v.name, depth: deep ? 4 : 3 })),
        ];
    },

    start(env, sc) {
        const { computed, h, reactive, ref } = env.vue;
        const lib = env.instance();
        const v = [...variants(), ...offers()].find((x) => x.name === sc.name);
        const state = reactive({ v: fresh(v.init) });
        const sys = { env, v, state, expect: [v.init], input: ref(null), emitted: [], list: 0 };
        const list = ref(0);
        sys.offer = (n) => {
            sys.list = n;
            list.value = n;
        };
        const options = computed(() => v.offered?.(list.value));
        sys.app = env.mount({
            render: () =>
                h(lib[v.comp], {
                    ...v.props,
                    ...(v.offered ? { options: options.value } : {}),
                    ref: sys.input,
                    modelValue: state.v,
                    'onUpdate:modelValue': (x) => {
                        sys.emitted.push(x);
                        state.v = x;
                    },
                }),
        });
        return env.flush().then(() => sys);
    },

    enabled(sys) {
        const out = [];
        sys.v.writes.forEach((w, i) => out.push('write:' + i));
        sys.v.edits.forEach((e, i) => out.push('edit:' + i));
        if (sys.v.writes.length > 1) {
            out.push('write+write');
        }
        if (Array.isArray(sys.v.init)) {
            sys.v.writes.some((w) => Array.isArray(w) && w.length) && out.push('push');
            out.push('splice');
        }
        for (let n = 0; n < (sys.v.lists ?? 0); n++) {
            out.push('offer:' + n);
        }
        if (sys.v.edits.length && sys.v.edits[0][3] !== 'async') {
            out.push('write+edit', 'edit+write');
        }
        if (sys.v.cleared !== undefined) {
            out.push('clear');
        }
        return out;
    },

    async step(sys, action) {
        const { env, v, state } = sys;
        const [kind, arg] = action.split(':');
        sys.emitted.length = 0;
        const cur = state.v;
        const norm = (x) => v.norm(x, sys);
        const after = (e) => (typeof e[2] === 'function' ? e[2](cur) : v.refuses?.(cur, e[2]) ? cur : e[2]);
        if (kind === 'write') {
            await env.act(() => (state.v = fresh(v.writes[arg])));
            sys.expect = [norm(v.writes[arg])];
        } else if (kind === 'edit') {
            const e = v.edits[arg];
            sys.expect = [norm(after(e))];
            if (e[3] === 'async') {
                await e[1](sys.app.el, env);
            } else {
                await env.act(() => e[1](sys.app.el));
            }
        } else if (kind === 'write+write') {
            await env.act(() => {
                state.v = fresh(v.writes[1]);
                state.v = fresh(v.writes[0]);
            });
            sys.expect = [norm(v.writes[0])];
        } else if (kind === 'write+edit' || kind === 'edit+write') {
            // simultaneous: either may win, but model and page must agree on the winner
            const e = v.edits[0];
            sys.expect = [norm(v.writes[0]), norm(after(e)), ...(typeof e[2] === 'function' ? [norm(e[2](v.writes[0]))] : [])];
            await env.act(() => {
                if (kind === 'write+edit') {
                    state.v = fresh(v.writes[0]);
                    e[1](sys.app.el);
                } else {
                    e[1](sys.app.el);
                    state.v = fresh(v.writes[0]);
                }
            });
        } else if (kind === 'push' || kind === 'splice') {
            // the page changes the bound list itself instead of replacing it
            const add = v.writes.find((w) => Array.isArray(w) && w.length)[0];
            const next = kind === 'splice' ? cur.slice(1) : cur.some((x) => json(x) === json(add)) ? [...cur] : [...cur, add];
            await env.act(() => {
                if (kind === 'splice') {
                    state.v.splice(0, 1);
                } else if (next.length > cur.length) {
                    state.v.push(add);
                }
            });
            sys.expect = [norm(next)];
        } else if (kind === 'offer') {
            const same = Number(arg) === sys.list;
            await env.act(() => sys.offer(Number(arg)));
            sys.expect = [same ? cur : v.kept(cur, arg)];
        } else if (kind === 'clear') {
            await env.act(() => sys.input.value.clear());
            sys.expect = [v.cleared];
        }
        if (v.settle) {
            await env.advance(v.settle);
        }
        if (sys.emitted.length > 4) {
            sys.loop = true;
        }
    },

    verdict(sys) {
        const { v, state } = sys;
        if (sys.loop) {
            return `one action produced ${sys.emitted.length} model updates: ${json(sys.emitted)}`;
        }
        if (!sys.expect.some((x) => json(x) === json(state.v))) {
            return `the bound model is ${json(state.v)}, expected ${sys.expect.map(json).join(' or ')}`;
        }
        const shown = v.show(sys.app.el, sys);
        if (json(shown) !== json(v.view(state.v, sys))) {
            return `the page shows ${json(shown)} while the bound model is ${json(state.v)}`;
        }
        return null;
    },

    state(sys) {
        return json([sys.state.v, sys.v.show(sys.app.el, sys), sys.expect, sys.emitted]);
    },
};
