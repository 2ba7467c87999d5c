// Change guards: a guarded change happens exactly if its guard agrees, and overlapping guarded changes do not lose one another.
import { all, json, nativeToggle } from '../lib/kit.mjs';
import { deferred } from '../lib/ui-env.mjs';

const toggle = (v, o, on) => (on ? (v.includes(o) ? v : [...v, o]) : v.filter((x) => x !== o));
const sorted = (v) => (Array.isArray(v) ? [...v].sort() : v);

// options: what can be clicked; wants(value, option): what the click asks for; apply: the value once agreed to
function variants() {
    const single = (name, comp, cls) => ({
        name,
        kids: (lib, h, common) => [h(lib[comp], { ...common, trueValue: 'Y', falseValue: 'N' })],
        init: 'N',
        options: ['Y'],
        writes: ['Y', 'N'],
        wants: (v) => (v === 'Y' ? 'N' : 'Y'),
        apply: (v, w) => w,
        boxes: (el) => all(el, 'input'),
        marks: (el) => all(el, cls).map((x) => x.classList.contains('vs-checked')),
        expect: (v) => [v === 'Y'],
    });
    const pair = (name, comp, cls) => ({
        name,
        kids: (lib, h, common) => ['x', 'y'].map((o) => h(lib[comp], { ...common, key: o, multiple: true, trueValue: o })),
        init: [],
        options: ['x', 'y'],
        writes: [['x', 'y'], []],
        wants: (v, o) => [o, !v.includes(o)],
        apply: (v, w) => toggle(v, w[0], w[1]),
        boxes: (el) => all(el, 'input'),
        marks: (el) => all(el, cls).map((x) => x.classList.contains('vs-checked')),
        expect: (v) => ['x', 'y'].map((o) => v.includes(o)),
    });
    const radios = (name, kids) => ({
        name,
        kids,
        init: 'x',
        options: ['x', 'y', 'z'],
        writes: ['z', null],
        wants: (v, o) => o,
        apply: (v, w) => w,
        inert: (v, o) => v === o, // a browser reports no change for a radio that is already on
        boxes: (el) => all(el, 'input'),
        marks: (el) => all(el, 'input').map((x) => x.checked),
        expect: (v) => ['x', 'y', 'z'].map((o) => o === v),
    });
    return [
        single('checkbox', 'VsCheckbox', '.vs-checkbox'),
        single('switch', 'VsSwitch', '.vs-switch'),
        pair('two checkboxes sharing a list', 'VsCheckbox', '.vs-checkbox'),
        pair('two switches sharing a list', 'VsSwitch', '.vs-switch'),
        {
            ...pair('checkbox set', 'VsCheckbox', '.vs-checkbox'),
            kids: (lib, h, common) => [h(lib.VsCheckboxSet, { ...common, options: ['x', 'y'] })],
        },
        radios('radios sharing a value', (lib, h, common) => ['x', 'y', 'z'].map((o) => h(lib.VsRadio, { ...common, key: o, name: 'g', radioValue: o }))),
        radios('radio set', (lib, h, common) => [h(lib.VsRadioSet, { ...common, name: 'g', options: ['x', 'y', 'z'] })]),
    ];
}

export default {
    id: 'P08',
    world: 'ui',
    method: 'every interleaving, up to the depth, of clicks, parent writes and guard decisions (agree, refuse, in any order) on real mounted inputs; the oracle applies each agreed change to the value current at that moment',
    assumptions: ['whether an input locked while its guard decides still applies the change is left open'],

    scenarios(tier) {
        const deep = tier === 'thorough';
        return variants().flatMap((v) => [
            { name: v.name, mode: 'async', depth: deep ? 7 : v.options.length > 2 ? 5 : v.options.length > 1 ? 5 : 6 },
            { name: v.name + ', immediate guard', mode: 'sync', depth: deep ? 5 : 4 },
        ]);
    },

    start(env, sc) {
        const { h, reactive } = env.vue;
        const lib = env.instance();
        const v = variants().find((x) => x.name === sc.name.replace(', immediate guard', ''));
        const state = reactive({ v: v.init });
        const sys = { env, sc, v, state, model: v.init, pending: [], calls: [], answer: true, complaint: null };
        const guard = (from, to) => {
            sys.calls.push([from, to]);
            if (sc.mode === 'sync') {
                return sys.answer;
            }
            const d = deferred();
            sys.pending.push({ d, want: sys.asked });
            return d.promise;
        };
        const common = () => ({ modelValue: state.v, 'onUpdate:modelValue': (x) => (state.v = x), beforeChange: guard });
        sys.app = env.mount({ render: () => h('div', v.kids(lib, h, common())) });
        return env.flush().then(() => sys);
    },

    enabled(sys) {
        const { v, sc } = sys;
        const out = [];
        if (sys.pending.length < 3) {
            v.options.forEach((o, i) => v.inert?.(sys.state.v, o) || out.push('click:' + i));
        }
        v.writes.forEach((w, i) => json(w) !== json(sys.state.v) && out.push('write:' + i));
        if (sc.mode === 'sync') {
            out.push('answer');
        } else {
            sys.pending.forEach((p, i) => out.push('agree:' + i, 'refuse:' + i));
        }
        return out;
    },

    async step(sys, action) {
        const { env, v, state, sc } = sys;
        const [kind, a] = action.split(':');
        if (kind === 'write') {
            await env.act(() => (state.v = v.writes[a]));
            sys.model = v.writes[a];
        } else if (kind === 'answer') {
            sys.answer = !sys.answer;
        } else if (kind === 'click') {
            sys.asked = v.wants(sys.model, v.options[a]);
            sys.calls.length = 0;
            await env.act(() => nativeToggle(v.boxes(sys.app.el)[a]));
            if (sys.calls.length !== 1) {
                sys.complaint = `a click consulted the guard ${sys.calls.length} times`;
            } else {
                const [from, to] = sys.calls[0];
                const next = v.apply(sys.model, sys.asked);
                if (json(sorted(from)) !== json(sorted(sys.model)) || json(sorted(to)) !== json(sorted(next))) {
                    sys.complaint = `the guard was asked about ${json(from)} -> ${json(to)}, expected ${json(sys.model)} -> ${json(next)}`;
                }
                if (sc.mode === 'sync' && sys.answer) {
                    sys.model = next;
                }
            }
        } else {
            const p = sys.pending.splice(a, 1)[0];
            await env.act(() => p.d.resolve(kind === 'agree'));
            if (kind === 'agree') {
                sys.model = v.apply(sys.model, p.want);
            }
        }
    },

    verdict(sys) {
        const { v, state } = sys;
        if (sys.complaint) {
            return sys.complaint;
        }
        if (json(sorted(state.v)) !== json(sorted(sys.model))) {
            return `the value is ${json(state.v)}, expected ${json(sys.model)}`;
        }
        const want = v.expect(state.v);
        const marks = v.marks(sys.app.el);
        const native = v.boxes(sys.app.el).map((b) => b.checked);
        if (json(marks) !== json(want)) {
            return `the value is ${json(state.v)} but the page marks ${json(marks)}`;
        }
        if (json(native) !== json(want)) {
            return `the value is ${json(state.v)} but the native controls are ${json(native)}`;
        }
        return null;
    },

    state(sys) {
        return json([sys.state.v, sys.pending.map((p) => p.want), sys.answer]);
    },
};
