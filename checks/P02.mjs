// Helper messages: what is displayed belongs to the current value and the current message list.
import { drivers, valuesOf } from '../lib/inputs.mjs';
import { messages, json } from '../lib/kit.mjs';
import { deferred } from '../lib/ui-env.mjs';

export default {
    id: 'P02',
    world: 'ui',
    method: 'every interleaving of edits, parent writes, message-list replacement, clear calls and settlements of the pending asynchronous messages, up to the depth, executed on the real mounted input; the oracle is the message list applied to the current value',
    assumptions: [
        'promise jobs run first-in first-out, as the language requires; the harness chooses when each asynchronous message settles',
        'message functions are functions of the value they are called with',
    ],

    scenarios(tier) {
        const deep = tier === 'thorough';
        const list = [
            { name: 'text field', comp: 'VsInput', depth: deep ? 6 : 5 },
            { name: 'text field, two async messages', comp: 'VsInput', two: true, depth: deep ? 5 : 4 },
            { name: 'text field, message list replaced', comp: 'VsInput', swap: true, depth: deep ? 5 : 4 },
            { name: 'text field with rules', comp: 'VsInput', rules: true, swap: true, depth: deep ? 5 : 4 },
            { name: 'text field, message list replaced in place', comp: 'VsInput', swap: true, inPlace: true, depth: deep ? 5 : 4 },
            { name: 'text field, message list emptied', comp: 'VsInput', swap: true, empty: true, rules: true, depth: deep ? 5 : 4 },
        ];
        for (const comp of ['VsTextarea', 'VsCheckbox', 'VsSwitch', 'VsRadioSet', 'VsCheckboxSet', 'VsFileDrop', 'VsDatePicker', 'VsSelect']) {
            list.push({ name: comp, comp, depth: deep ? 5 : 4 });
        }
        return list;
    },

    start(env, sc) {
        const { h, reactive, ref, shallowReactive } = env.vue;
        const lib = env.instance();
        const d = drivers[sc.comp];
        const values = valuesOf(d);
        const state = reactive({ v: d.empty, version: 1 });
        const sys = { env, sc, d, values, state, calls: [], ruled: false };
        sys.norm = (v) => json(d.unordered ? [...v].sort() : v);
        const async = (name, version) => (v) => {
            const call = { name, value: sys.norm(v), version, d: deferred(), done: false, result: { state: 'info', text: `${name}${version} says ${sys.norm(v)}` } };
            sys.calls.push(call);
            return call.d.promise;
        };
        const listOf = (version) => {
            if (sc.empty && version === 2) {
                return [];
            }
            const list = [{ state: 'info', text: 'static' + version }, async('a', version)];
            if (sc.two) {
                list.push(async('b', version));
            }
            list.push((v) => ({ state: 'success', text: `sync${version} says ${sys.norm(v)}` }));
            return list;
        };
        const lists = { 1: listOf(1), 2: listOf(2) };
        const live = sc.inPlace ? shallowReactive([...lists[1]]) : null;
        sys.replaceList = (version) => {
            state.version = version;
            live?.splice(0, live.length, ...lists[version]);
        };
        sys.none = () => sc.empty && state.version === 2;
        sys.expected = () => {
            const { version } = state;
            const v = sys.norm(state.v);
            const ruled = sc.rules && sys.ruled && v === json('c') ? ['c is rejected', 'c is refused'] : [];
            if (sys.none()) {
                return { now: ruled, later: [] };
            }
            const now = [`static${version}`, `sync${version} says ${v}`];
            const later = [`a${version} says ${v}`];
            if (sc.two) {
                later.push(`b${version} says ${v}`);
            }
            return { now: [...now, ...ruled], later };
        };
        const input = ref(null);
        sys.input = input;
        const props = sc.rules ? { rules: [(v) => (v === 'c' ? 'c is rejected' : ''), (v) => (v === 'c' ? 'c is refused' : '')] } : {};
        sys.app = env.mount({
            render: () =>
                h(lib[sc.comp], {
                    ...d.props,
                    ...props,
                    ref: input,
                    id: 'field',
                    modelValue: state.v,
                    'onUpdate:modelValue': (v) => (state.v = v),
                    messages: live ?? lists[state.version],
                }),
        });
        return env.flush().then(() => sys);
    },

    isLast(sys, i) {
        return !sys.calls.slice(i + 1).some((c) => c.name === sys.calls[i].name);
    },

    enabled(sys) {
        const out = [];
        const now = sys.norm(sys.state.v);
        sys.values.forEach((v, i) => {
            if (sys.norm(v) === now) {
                return;
            }
            const stepAway = !sys.d.unordered || Math.abs(v.length - sys.state.v.length) === 1;
            if (sys.sc.comp !== 'VsSelect' && stepAway) {
                out.push('user:' + i);
            }
            if (sys.sc.comp === 'VsSelect' || i === 1) {
                out.push('parent:' + i);
            }
        });
        sys.calls.forEach((c, i) => {
            if (!c.done) {
                out.push('settle:' + i);
            }
        });
        if (sys.sc.swap) {
            out.push('list');
        }
        if (sys.sc.rules) {
            out.push('validate');
        }
        out.push('clear');
        return out;
    },

    async step(sys, action) {
        const { env, state } = sys;
        const [kind, arg] = action.split(':');
        const before = json(state.v);
        if (kind === 'user') {
            await env.act(() => sys.d.edit(sys.app.el, sys.values[arg], env));
        } else if (kind === 'parent') {
            await env.act(() => (state.v = sys.values[arg]));
        } else if (kind === 'settle') {
            const c = sys.calls[arg];
            c.done = true;
            await env.act(() => c.d.resolve(c.result));
        } else if (kind === 'list') {
            await env.act(() => sys.replaceList(3 - state.version));
        } else if (kind === 'validate') {
            await env.act(() => sys.input.value.validate());
            sys.ruled = true;
        } else if (kind === 'clear') {
            await env.act(() => sys.input.value.clear());
            sys.ruled = false;
        }
        if (json(state.v) !== before && kind !== 'clear') {
            sys.ruled = true;
        }
    },

    verdict(sys) {
        const { now, later } = sys.expected();
        const last = sys.calls.filter((c, i) => this.isLast(sys, i));
        for (const c of sys.none() ? [] : last) {
            if (c.value !== sys.norm(sys.state.v) || c.version !== sys.state.version) {
                return `messages were last computed for ${c.value} (list ${c.version}), the value is ${sys.norm(sys.state.v)} (list ${sys.state.version})`;
            }
        }
        const settled = last.length >= later.length && last.every((c) => c.done);
        const shown = messages(sys.app.el);
        const rest = [...now, ...later];
        for (const m of shown) {
            const i = rest.indexOf(m);
            if (i < 0) {
                return `shows "${m}" ${[...now, ...later].includes(m) ? 'more than once' : `which does not belong to the current value ${sys.norm(sys.state.v)}`}; shown ${json(shown)}`;
            }
            rest.splice(i, 1);
        }
        const missing = rest.filter((m) => settled || now.includes(m));
        return missing.length ? `does not show ${json(missing)}; shown ${json(shown)}` : null;
    },

    async finish(sys) {
        for (const c of [...sys.calls].reverse()) {
            if (!c.done) {
                c.done = true;
                c.d.resolve(c.result);
            }
        }
        await sys.env.flush();
        return this.verdict(sys);
    },

    state(sys) {
        return json([
            sys.state.v,
            sys.state.version,
            sys.ruled,
            messages(sys.app.el),
            sys.calls.filter((c, i) => !c.done || this.isLast(sys, i)).map((c) => [c.name, c.value, c.version, c.done]),
        ]);
    },
};
