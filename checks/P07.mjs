// Built-in constraints (required, minimum, maximum, accepted types): judged for the current value and settings.
import { drop, file } from '../lib/inputs.mjs';
import { all, json, messages, nativeToggle, typeInto } from '../lib/kit.mjs';

const len = () => (v, c) => [
    ...(c.required && v.length === 0 ? ['required'] : []),
    ...(c.max !== undefined && v.length > c.max ? [String(c.max)] : []),
    ...(c.min !== undefined && v.length < c.min ? [String(c.min)] : []),
];
const isNil = (v) => v === null || v === undefined;
const set = ['x', 'y', 'z'];

// settings: name -> the values it moves through; fails(value, settings): one word per expected failure
function variants() {
    const textual = (name, comp, sel) => ({
        name,
        comp,
        settings: { required: [false, true], min: [0, 2], max: [9, 3] },
        values: ['', 'ab', 'abcd', 'a'],
        fails: len(),
        edit: (el, v) => typeInto(el.querySelector(sel), v),
    });
    const bool = (name, comp, props, t, f) => ({
        name,
        comp,
        props,
        settings: { required: [false, true] },
        values: [f, t],
        fails: (v, c) => (c.required && json(v) !== json(t) ? ['required'] : []),
        edit: (el, v, now) => json(v) !== json(now) && nativeToggle(el.querySelector('input')),
    });
    return [
        textual('text field', 'VsInput', 'input'),
        textual('text area', 'VsTextarea', 'textarea'),
        {
            name: 'number field',
            comp: 'VsInput',
            props: { type: 'number' },
            settings: { required: [false, true], min: [-99, 2], max: [99, 5] },
            values: [null, 0, 2, 7, -3],
            fails: (v, c) => [
                ...(c.required && isNil(v) ? ['required'] : []),
                ...(v !== null && v > c.max ? [String(c.max)] : []),
                ...(v !== null && v < c.min ? [String(c.min)] : []),
            ],
            edit: (el, v) => typeInto(el.querySelector('input'), isNil(v) ? '' : String(v)),
        },
        bool('checkbox', 'VsCheckbox', {}, true, false),
        bool('checkbox, custom values', 'VsCheckbox', { trueValue: 0, falseValue: 1 }, 0, 1),
        bool('checkbox in a list', 'VsCheckbox', { multiple: true, trueValue: 'x' }, ['x'], []),
        bool('switch', 'VsSwitch', {}, true, false),
        bool('switch, custom values', 'VsSwitch', { trueValue: 'N', falseValue: 'Y' }, 'N', 'Y'),
        {
            name: 'radio',
            comp: 'VsRadio',
            props: { radioValue: 'r', name: 'n' },
            settings: { required: [false, true] },
            values: [null, 'r'],
            fails: (v, c) => (c.required && v !== 'r' ? ['required'] : []),
            edit: (el, v) => v === 'r' && nativeToggle(el.querySelector('input')),
            editable: (v) => v === 'r',
        },
        {
            name: 'radio set',
            comp: 'VsRadioSet',
            props: { options: [0, '', 'z'], name: 'n' },
            settings: { required: [false, true] },
            values: [null, 0, '', 'z'],
            fails: (v, c) => (c.required && isNil(v) ? ['required'] : []),
            edit: (el, v) => nativeToggle(all(el, 'input')[[0, '', 'z'].indexOf(v)]),
            editable: (v) => v !== null,
        },
        {
            name: 'checkbox set',
            comp: 'VsCheckboxSet',
            props: { options: set, name: 'n' },
            settings: { required: [false, true], min: [0, 2], max: [9, 1] },
            values: [[], ['y'], ['x', 'y'], ['x', 'y', 'z']],
            fails: len(),
        },
        {
            name: 'select',
            comp: 'VsSelect',
            props: { options: [0, false, '', 'z'] },
            settings: { required: [false, true] },
            values: [null, 0, false, 'z'],
            fails: (v, c) => (c.required && isNil(v) ? ['required'] : []),
        },
        {
            name: 'select, several',
            comp: 'VsSelect',
            props: { options: set, multiple: true },
            settings: { required: [false, true], min: [0, 2], max: [9, 1] },
            values: [[], ['y'], ['x', 'y'], ['x', 'y', 'z']],
            fails: len(),
        },
        {
            name: 'date picker',
            comp: 'VsDatePicker',
            settings: { required: [false, true], min: [undefined, '2024-01-10'], max: [undefined, '2024-01-20'] },
            values: ['', '2024-01-05', '2024-01-10', '2024-01-20', '2024-01-21'],
            fails: (v, c) => [
                ...(c.required && !v ? ['required'] : []),
                ...(v && c.min && v < c.min ? [c.min] : []),
                ...(v && c.max && v > c.max ? [c.max] : []),
            ],
            edit: (el, v) => typeInto(el.querySelector('input'), v),
        },
        {
            name: 'file drop',
            comp: 'VsFileDrop',
            props: { multiple: true },
            settings: { required: [false, true], accept: ['', 'image/*', '.txt, image/png'] },
            values: [[], [file('a.txt')], [file('b.png', 'image/png')], [file('c.jpg', 'image/jpeg'), file('D.TXT', '')]],
            fails: accepted,
        },
        {
            // how many files may be dropped at once: a drop outside the limits is refused as a whole
            name: 'file drop, number of files',
            comp: 'VsFileDrop',
            settings: { multiple: [true, false], min: [0, 2, '2'], max: [9, 2, 0, '1'] },
            values: [[]],
            fails: () => [],
            drops: [1, 2, 3].map((n) => ['a.txt', 'b.txt', 'c.txt'].slice(0, n).map((x) => file(x))),
            accepts: (v, c) => (c.multiple || v.length <= 1) && v.length >= Number(c.min) && v.length <= Number(c.max),
        },
        ...edges(),
    ];
}

// the same constraints on unusual values and limits, at a lower depth
function edges() {
    const count = (name, comp, props) => ({
        name,
        comp,
        props,
        settings: { required: [false, true], min: [0, 1, '3', -1], max: [9, 0, '2', 3] },
        values: [[], ['y'], ['x', 'y'], ['z', 'y', 'x']],
        fails: len(),
        depth: 3,
    });
    const textual = (name, comp, sel) => ({
        name,
        comp,
        settings: { required: [false, true], min: [0, 3, '2', 1], max: [99, 0, '3', 4] },
        values: ['', ' ', ' a ', 'a\nb', 'é漢字', '0', '12345'],
        fails: len(),
        edit: (el, v) => typeInto(el.querySelector(sel), v),
        editable: (v) => !(sel === 'input' && v.includes('\n')),
        depth: 2,
    });
    const number = (v, c) => [
        ...(c.required && isNil(v) ? ['required'] : []),
        ...(v !== null && v > Number(c.max) ? [String(c.max)] : []),
        ...(v !== null && v < Number(c.min) ? [String(c.min)] : []),
    ];
    return [
        textual('text field, unusual values', 'VsInput', 'input'),
        textual('text area, unusual values', 'VsTextarea', 'textarea'),
        {
            name: 'number field, unusual values',
            comp: 'VsInput',
            props: { type: 'number' },
            settings: { required: [false, true], min: [-999, 0, '-1', 1.5], max: [999, 0, '10', 5, -1] },
            values: [null, 0, 5, 5.5, 9, 10.25, -0.5, -1, 1.5, 100],
            fails: number,
            edit: (el, v) => typeInto(el.querySelector('input'), isNil(v) ? '' : String(v)),
            depth: 2,
        },
        count('checkbox set, unusual limits', 'VsCheckboxSet', { options: set, name: 'n' }),
        count('select several, unusual limits', 'VsSelect', { options: set, multiple: true }),
        {
            name: 'date picker, unusual limits',
            comp: 'VsDatePicker',
            settings: { required: [false, true], min: [undefined, '2023-12-31', '2024-02-29', ''], max: [undefined, '2024-01-01', '2024-10-09', ''] },
            values: ['', '2023-12-31', '2024-01-01', '2024-02-29', '2024-03-01', '2024-10-09', '2024-10-10', '2024-09-30'],
            fails: (v, c) => [
                ...(c.required && !v ? ['required'] : []),
                ...(v && c.min && v < c.min ? [c.min] : []),
                ...(v && c.max && v > c.max ? [c.max] : []),
            ],
            edit: (el, v) => typeInto(el.querySelector('input'), v),
            depth: 2,
        },
        ...['datetime-local', 'month', 'time'].map((type) => {
            const at = { 'datetime-local': (n) => '2024-01-0' + n + 'T10:0' + n, month: (n) => '2024-0' + n, time: (n) => '10:0' + n }[type];
            return {
                name: 'date picker of ' + type,
                comp: 'VsDatePicker',
                props: { type },
                settings: { required: [false, true], min: [undefined, at(2)], max: [undefined, at(4)] },
                values: ['', at(1), at(2), at(4), at(5)],
                fails: (v, c) => [
                    ...(c.required && !v ? ['required'] : []),
                    ...(v && c.min && v < c.min ? [c.min.toLowerCase()] : []),
                    ...(v && c.max && v > c.max ? [c.max.toLowerCase()] : []),
                ],
                depth: 2,
            };
        }),
        {
            name: 'file drop, unusual types',
            comp: 'VsFileDrop',
            props: { multiple: true },
            settings: { required: [false, true], accept: ['', '.TXT', 'image/*', 'application/json', '.gz,text/*', ' .Md , video/* ', 'image/png'] },
            values: [
                [],
                [file('a.b.txt', '')],
                [file('a.txt', 'text/plain')],
                [file('x.bin', 'x-image/png')],
                [file('y.png', 'image/png')],
                [file('z.png', 'image/pngx')],
                [file('t.tar.gz', 'application/gzip')],
                [file('r.md', '')],
                [file('noext', '')],
                [file('txt', '')],
                [file('m.json', 'application/json'), file('n.txt', 'text/html')],
                [file('q.png', 'image/png'), file('p.mp4', 'video/mp4')],
            ],
            fails: accepted,
            depth: 2,
        },
    ];
}

function accepted(v, c) {
    const ok = (f) => {
        const dot = f.name.lastIndexOf('.');
        const ext = dot < 0 ? '' : f.name.slice(dot).toLowerCase();
        return c.accept.split(',').some((a) => {
            const k = a.trim();
            return k === f.type || (k.startsWith('.') && k.toLowerCase() === ext) || (k.endsWith('/*') && f.type.startsWith(k.slice(0, -1)));
        });
    };
    return [...(c.required && !v.length ? ['required'] : []), ...(c.accept && !v.every(ok) ? ['llowed'] : [])];
}

const nth = (v, c) => Object.fromEntries(Object.entries(v.settings).map(([k, l]) => [k, l[c[k]]]));

export default {
    id: 'P07',
    world: 'ui',
    method: 'every sequence, up to the depth, of writes, edits and changes of settings on each real mounted input, from both directions; the oracle applies the documented constraints to the current value and settings',
    assumptions: ['the limits are numbers (dates for the date picker) and values are of the documented type'],

    scenarios(tier) {
        const deep = tier === 'thorough';
        return variants().map((v) => ({ name: v.name, depth: v.depth ? v.depth + (deep ? 1 : 0) : v.drops ? (deep ? 5 : 4) : Object.keys(v.settings).length > 1 || v.values.length > 2 ? (deep ? 4 : 3) : deep ? 5 : 4 }));
    },

    start(env, sc) {
        const { h, reactive, ref } = env.vue;
        const lib = env.instance();
        const v = variants().find((x) => x.name === sc.name);
        const conf = reactive(Object.fromEntries(Object.keys(v.settings).map((k) => [k, 0])));
        const state = reactive({ v: v.values[0], off: false });
        const sys = { env, v, state, conf, input: ref(null), valid: true, formValid: ref(true) };
        sys.app = env.mount({
            render: () =>
                h(lib.VsForm, { 'onUpdate:valid': (x) => (sys.formValid = x) }, () =>
                    h(lib[v.comp], {
                        ...v.props,
                        ...nth(v, conf),
                        noDefaultRules: state.off,
                        ref: sys.input,
                        modelValue: state.v,
                        'onUpdate:modelValue': (x) => (state.v = x),
                        'onUpdate:valid': (x) => (sys.valid = x),
                    }),
                ),
        });
        return env.flush().then(() => {
            sys.formValid = true;
            return sys;
        });
    },

    enabled(sys) {
        const { v } = sys;
        const out = v.values.map((x, i) => 'write:' + i);
        if (v.edit) {
            v.values.forEach((x, i) => (v.editable?.(x) ?? true) && out.push('edit:' + i));
        }
        for (const [k, l] of Object.entries(v.settings)) {
            l.forEach((x, i) => i !== sys.conf[k] && out.push(`set:${k}:${i}`));
        }
        if (v.drops) {
            v.drops.forEach((x, i) => out.push('drop:' + i));
            return out;
        }
        out.push('off', 'write+set');
        return out;
    },

    async step(sys, action) {
        const { env, v, state, conf } = sys;
        const [kind, a, b] = action.split(':');
        if (kind === 'write') {
            await env.act(() => (state.v = v.values[a]));
        } else if (kind === 'edit') {
            await env.act(() => v.edit(sys.app.el, v.values[a], state.v));
        } else if (kind === 'set') {
            await env.act(() => (conf[a] = Number(b)));
        } else if (kind === 'drop') {
            const before = state.v;
            const ok = v.accepts(v.drops[a], nth(v, conf));
            await env.act(() => drop(sys.app.el.querySelector('.vs-file-drop'), v.drops[a]));
            sys.refusal = null;
            if (json(state.v) !== json(ok ? v.drops[a] : before)) {
                sys.refusal = `dropping ${v.drops[a].length} files with ${json(nth(v, conf))} left ${json(state.v)}`;
            } else if (!ok !== messages(sys.app.el).length > 0) {
                sys.refusal = `a drop that was ${ok ? 'accepted' : 'refused'} shows the messages ${json(messages(sys.app.el))}`;
            }
        } else if (kind === 'off') {
            await env.act(() => (state.off = !state.off));
        } else if (kind === 'write+set') {
            await env.act(() => {
                state.v = v.values[1];
                conf.required = 1 - conf.required;
            });
        }
    },

    verdict(sys) {
        if (sys.refusal) {
            return sys.refusal;
        }
        if (sys.v.drops) {
            return null;
        }
        const want = expected(sys);
        const ok = want.length === 0;
        const where = `value ${json(sys.state.v)} with ${json(nth(sys.v, sys.conf))}${sys.state.off ? ', built-in rules off' : ''}`;
        if (sys.valid !== ok) {
            return `${where}: reported ${sys.valid ? 'valid' : 'invalid'}, expected failures ${json(want)}`;
        }
        if (sys.final) {
            if (sys.final.answer !== ok) {
                return `${where}: validate() answered ${sys.final.answer}, expected failures ${json(want)}`;
            }
            const shown = sys.final.shown;
            const rest = [...shown];
            for (const w of want) {
                const i = rest.findIndex((m) => m.toLowerCase().includes(w));
                if (i < 0) {
                    return `${where}: no message about "${w}" among ${json(shown)}`;
                }
                rest.splice(i, 1);
            }
            if (rest.length) {
                return `${where}: unexpected messages ${json(rest)}`;
            }
        }
        return null;
    },

    async finish(sys) {
        let answer;
        await sys.env.act(() => (answer = sys.input.value.validate()));
        sys.final = { answer, shown: messages(sys.app.el) };
        return this.verdict(sys);
    },

    state(sys) {
        return json([sys.state, sys.conf, sys.valid, sys.final]);
    },
};

function expected(sys) {
    return sys.state.off ? [] : sys.v.fails(sys.state.v, nth(sys.v, sys.conf));
}
