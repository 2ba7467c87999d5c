// Asynchronous validation: the verdict and the displayed failures belong to the current value.
import { drivers, valuesOf } from '../lib/inputs.mjs';
import { messages, json } from '../lib/kit.mjs';
import { deferred } from '../lib/ui-env.mjs';

const A = (v, version) => (version === 2 ? 'second ' : '') + 'async rejects ' + json(v);
const B = (v) => 'also rejects ' + json(v);
const S = (v) => 'sync rejects ' + json(v);

export default {
    id: 'P01',
    world: 'ui',
    method: 'every interleaving of edits, parent writes, rule replacement, validate/clear calls and settlements of the pending asynchronous rules, up to the depth, executed on the real mounted input; the oracle is the rule set applied to the current value',
    assumptions: [
        'promise jobs run first-in first-out, as the language requires; the harness chooses when each asynchronous rule settles',
        'rules are functions of the value they are called with; a rule may reject only after its value was superseded',
    ],

    scenarios(tier) {
        const deep = tier === 'thorough';
        const list = [
            { name: 'text field, one async and one sync rule', comp: 'VsInput', two: false, depth: deep ? 6 : 5 },
            { name: 'text field, two async rules', comp: 'VsInput', two: true, reject: true, depth: deep ? 5 : 4 },
            { name: 'text field inside a form', comp: 'VsInput', form: true, reject: true, depth: deep ? 6 : 4 },
            { name: 'text field, rules replaced', comp: 'VsInput', swap: true, depth: deep ? 5 : 4 },
            { name: 'text field, rules replaced in place', comp: 'VsInput', swap: true, inPlace: true, depth: deep ? 5 : 3 },
            { name: 'text field, own rules only, replaced in place', comp: 'VsInput', swap: true, inPlace: true, bare: true, depth: deep ? 5 : 3 },
        ];
        for (const comp of ['VsTextarea', 'VsCheckbox', 'VsSwitch', 'VsRadioSet', 'VsCheckboxSet', 'VsFileDrop', 'VsDatePicker', 'VsSelect', 'VsRadio']) {
            list.push({ name: comp, comp, form: true, depth: deep ? 5 : 4, noUser: comp === 'VsSelect' });
        }
        return list;
    },

    start(env, sc) {
        const { h, reactive, ref, shallowReactive } = env.vue;
        const lib = env.instance();
        const d = drivers[sc.comp];
        const values = valuesOf(d);
        const state = reactive({ v: d.empty, version: 1 });
        const sys = { env, sc, d, values, state, calls: [], valid: true, shown: false, returned: null };
        // value 0: passes; value 1: rejected by the async rule(s); value 2 (if any): rejected by all rules
        const norm = (v) => json(d.unordered ? [...v].sort() : v);
        sys.norm = norm;
        sys.rank = (v) => values.findIndex((x) => norm(x) === norm(v));
        sys.async = (v, version) => {
            const r = sys.rank(v);
            return (version === 2 ? r === 0 || r === 2 : r === 1 || r === 2) ? A(v, version) : '';
        };
        sys.sync = (v) => (sys.rank(v) === 2 ? S(v) : '');
        const asyncRule = (name, f, version) => (v) => {
            const call = { name, value: json(v), version, d: deferred(), done: false, result: f(v, version) };
            sys.calls.push(call);
            return call.d.promise;
        };
        const rulesOf = (version) => {
            const rules = [asyncRule('a', sys.async, version)];
            if (sc.two) {
                rules.push(asyncRule('b', (v) => (sys.rank(v) >= 1 ? B(v) : ''), version));
            }
            rules.push((v) => sys.sync(v));
            return rules;
        };
        const rules = { 1: rulesOf(1), 2: rulesOf(2) };
        const live = sc.inPlace ? shallowReactive([...rules[1]]) : null;
        sys.replaceRules = (version) => {
            state.version = version;
            live?.splice(0, live.length, ...rules[version]);
        };
        sys.expected = () => {
            const v = state.v;
            const out = [];
            if (sys.sync(v)) {
                out.push(sys.sync(v));
            }
            if (sys.async(v, state.version)) {
                out.push(sys.async(v, state.version));
            }
            if (sc.two && sys.rank(v) >= 1) {
                out.push(B(v));
            }
            return out;
        };
        const input = ref(null);
        const form = ref(null);
        sys.input = input;
        sys.form = form;
        const field = () =>
            h(lib[sc.comp], {
                ...d.props,
                ref: input,
                id: 'field',
                modelValue: state.v,
                'onUpdate:modelValue': (v) => (state.v = v),
                'onUpdate:valid': (v) => (sys.valid = v),
                rules: live ?? rules[state.version],
                noDefaultRules: Boolean(sc.bare),
            });
        const root = { render: () => (sc.form ? h(lib.VsForm, { ref: form }, { default: field }) : field()) };
        sys.app = env.mount(root);
        return env.flush().then(() => sys);
    },

    pendingCalls(sys) {
        return sys.calls.map((c, i) => ({ c, i })).filter(({ c }) => !c.done);
    },

    // the calls that decide the current verdict: the last one of each asynchronous rule
    isLast(sys, i) {
        return !sys.calls.slice(i + 1).some((c) => c.name === sys.calls[i].name);
    },

    enabled(sys) {
        const out = [];
        const shown = sys.norm(sys.state.v);
        sys.values.forEach((v, i) => {
            if (sys.norm(v) === shown) {
                return;
            }
            if (!sys.sc.noUser && !(sys.sc.comp === 'VsRadio' && v === null)) {
                const stepAway = !sys.d.unordered || Math.abs(v.length - sys.state.v.length) === 1;
                if (stepAway) {
                    out.push('user:' + i);
                }
            }
            if (sys.sc.noUser || i === 1) {
                out.push('parent:' + i);
            }
        });
        for (const { c, i } of this.pendingCalls(sys)) {
            out.push('settle:' + i);
            if (sys.sc.reject && !this.isLast(sys, i) && c.name === 'a') {
                out.push('reject:' + i);
            }
        }
        if (sys.sc.swap) {
            out.push('rules');
        }
        out.push('validate');
        if (sys.sc.comp !== 'VsTextarea' && sys.shown) {
            out.push('clear');
        }
        return out;
    },

    async step(sys, action) {
        const { env, state } = sys;
        const [kind, arg] = action.split(':');
        sys.returned = null;
        const before = json(state.v);
        if (kind === 'user') {
            await env.act(() => sys.d.edit(sys.app.el, sys.values[arg], env));
        } else if (kind === 'parent') {
            await env.act(() => (state.v = sys.values[arg]));
        } else if (kind === 'settle') {
            const c = sys.calls[arg];
            c.done = true;
            await env.act(() => c.d.resolve(c.result));
        } else if (kind === 'reject') {
            const c = sys.calls[arg];
            c.done = true;
            await env.act(() => c.d.reject(new Error('rule failed')));
        } else if (kind === 'rules') {
            await env.act(() => sys.replaceRules(3 - state.version));
        } else if (kind === 'validate') {
            sys.shown = true;
            if (sys.sc.form) {
                let r;
                await env.act(() => sys.form.value.validate().then((x) => (r = x)));
                sys.returned = r;
            } else {
                sys.returned = await env.act(() => sys.input.value.validate());
            }
        } else if (kind === 'clear') {
            await env.act(() => (sys.sc.form ? sys.form.value.clear() : sys.input.value.clear()));
            sys.shown = false;
        }
        if (json(state.v) !== before && kind !== 'clear') {
            sys.shown = true;
        }
        if ((kind === 'user' || kind === 'parent') && sys.norm(state.v) !== sys.norm(sys.values[arg])) {
            sys.stuck = `after ${action} the value is ${json(state.v)}`;
        }
    },

    verdict(sys) {
        if (sys.stuck) {
            return sys.stuck;
        }
        const want = sys.expected();
        const shown = messages(sys.app.el);
        const last = sys.calls.filter((c, i) => this.isLast(sys, i));
        const names = sys.sc.two ? ['a', 'b'] : ['a'];
        if (!names.every((n) => last.some((c) => c.name === n))) {
            return 'an asynchronous rule was never consulted';
        }
        for (const c of last) {
            if (c.value !== json(sys.state.v) || c.version !== sys.state.version) {
                return `the rules were last applied to ${c.value} (set ${c.version}), the value is ${json(sys.state.v)} (set ${sys.state.version})`;
            }
        }
        const settled = last.every((c) => c.done);
        const rest = [...want];
        for (const m of shown) {
            const i = rest.indexOf(m);
            if (i < 0) {
                return `shows "${m}" ${want.includes(m) ? 'more than once' : `which is not a failure of the current value ${json(sys.state.v)}`}; shown ${json(shown)}`;
            }
            rest.splice(i, 1);
        }
        if (sys.shown && settled && rest.length) {
            return `does not show ${json(rest)} although every check of ${json(sys.state.v)} has settled; shown ${json(shown)}`;
        }
        const formValid = sys.sc.form ? sys.form.value.valid : sys.valid;
        if (settled || sys.sync(sys.state.v)) {
            const valid = want.length === 0;
            if (sys.valid !== valid) {
                return `reports valid=${sys.valid} for ${json(sys.state.v)}, whose failures are ${json(want)}`;
            }
            if (formValid !== valid) {
                return `the form reports valid=${formValid}, the field's failures are ${json(want)}`;
            }
            if (sys.returned !== null && sys.returned !== valid) {
                return `validate() answered ${sys.returned} for ${json(sys.state.v)}, whose failures are ${json(want)}`;
            }
        } else if (want.length === 0 && sys.valid === false) {
            return `reports valid=false for ${json(sys.state.v)}, which no rule rejects`;
        }
        return null;
    },

    // whatever is still pending settles: the verdict must then be exactly that of the current value
    async finish(sys) {
        for (const { c } of this.pendingCalls(sys).reverse()) {
            c.done = true;
            c.d.resolve(c.result);
        }
        await sys.env.flush();
        sys.returned = null;
        return this.verdict(sys);
    },

    state(sys) {
        return json([
            sys.state.v,
            sys.state.version,
            sys.valid,
            sys.shown,
            messages(sys.app.el),
            sys.calls.filter((c, i) => !c.done || this.isLast(sys, i)).map((c) => [c.name, c.value, c.version, c.done]),
        ]);
    },
};
