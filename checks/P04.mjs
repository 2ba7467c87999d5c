// Form-wide validate() and clear() reach exactly the fields present, and decide what each field displays.
import { drivers, valuesOf } from '../lib/inputs.mjs';
import { json, messages } from '../lib/kit.mjs';

const NAMES = ['a', 'b'];

export default {
    id: 'P04',
    world: 'ui',
    method: 'every sequence, up to the depth, of editing, emptying, mounting, unmounting, validating and clearing (also twice in one tick) on a real form with nested fields of each kind; the oracle keeps, per field, its value and whether its failures are due to be shown',
    assumptions: ['clear-then-validate within one tick is left open'],

    scenarios(tier) {
        const deep = tier === 'thorough';
        return Object.keys(drivers).flatMap((comp) => [
            { name: 'form of ' + comp, comp, depth: deep ? 5 : ['VsInput', 'VsTextarea', 'VsSwitch'].includes(comp) ? 4 : 3 },
            // fields that the user may not change are validated and cleared like any other
            { name: `form of disabled ${comp}`, comp, barForm: { disabled: true }, depth: deep ? 3 : 2 },
            { name: `form of readonly ${comp}`, comp, barField: { readonly: true }, depth: deep ? 3 : 2 },
        ]);
    },

    start(env, sc) {
        const { h, reactive, ref } = env.vue;
        const lib = env.instance();
        const d = drivers[sc.comp];
        const s = reactive({ a: { v: d.empty, on: true }, b: { v: d.empty, on: true } });
        const sys = { env, sc, d, s, values: valuesOf(d), form: ref(null), show: { a: false, b: false }, changed: { a: false, b: false }, complaint: null };
        const field = (name) =>
            h(lib[sc.comp], {
                ...d.props,
                ...(d.props?.name ? { name } : {}),
                ...sc.barField,
                key: name,
                id: name,
                class: 'field-' + name,
                required: true,
                modelValue: s[name].v,
                'onUpdate:modelValue': (x) => (s[name].v = x),
            });
        // b sits inside another component, two levels down
        const Nested = { name: 'Nested', render: () => h('section', [h(lib.VsBlock, null, { default: () => (s.b.on ? field('b') : null) })]) };
        sys.app = env.mount({ render: () => h(lib.VsForm, { ref: sys.form, ...sc.barForm }, { default: () => [s.a.on ? field('a') : null, h(Nested)] }) });
        return env.flush().then(() => sys);
    },

    node(sys, name) {
        return sys.app.el.querySelector('.field-' + name);
    },

    enabled(sys) {
        const out = ['validate', 'clear', 'validate+validate', 'clear+clear', 'validate+clear'];
        for (const n of NAMES) {
            if (sys.s[n].on) {
                out.push('edit:' + n);
                if (json(sys.s[n].v) !== json(sys.d.empty)) {
                    out.push('empty:' + n);
                }
            }
            if (n === 'b') {
                out.push('toggle:' + n);
            }
        }
        return out;
    },

    async step(sys, action) {
        const { env, s, d } = sys;
        const [kind, n] = action.split(':');
        if (kind === 'edit') {
            const before = json(s[n].v);
            const v = sys.values[0];
            if (d.slow || sys.sc.barForm || sys.sc.barField || json(s[n].v) === json(v)) {
                await env.act(() => (s[n].v = v));
            } else {
                await env.act(() => d.edit(this.node(sys, n), v, env));
            }
            if (json(s[n].v) !== before) {
                sys.show[n] = true;
                sys.changed[n] = true;
            }
        } else if (kind === 'empty') {
            await env.act(() => (s[n].v = d.empty));
            sys.show[n] = true;
            sys.changed[n] = true;
        } else if (kind === 'toggle') {
            await env.act(() => (s[n].on = !s[n].on));
            sys.show[n] = false;
            sys.changed[n] = false;
        } else {
            const form = sys.form.value;
            sys.answers = [];
            await env.act(() => {
                for (const k of kind.split('+')) {
                    if (k === 'validate') {
                        form.validate().then((x) => sys.answers.push(x));
                    } else {
                        form.clear();
                    }
                }
            });
            for (const name of NAMES) {
                if (!s[name].on) {
                    continue;
                }
                if (kind.endsWith('clear')) {
                    sys.show[name] = false;
                    sys.changed[name] = false;
                    if (json(s[name].v) !== json(d.empty)) {
                        sys.complaint = `form.clear() left field ${name} at ${json(s[name].v)}`;
                    }
                } else {
                    sys.show[name] = true;
                }
            }
            if (!kind.endsWith('clear')) {
                const ok = NAMES.every((name) => !s[name].on || json(s[name].v) !== json(d.empty));
                if (sys.answers.some((x) => x !== ok) || sys.answers.length !== kind.split('+').length) {
                    sys.complaint = `form.validate() answered ${json(sys.answers)}, expected ${ok}`;
                }
            }
        }
    },

    verdict(sys) {
        if (sys.complaint) {
            return sys.complaint;
        }
        for (const n of NAMES) {
            if (!sys.s[n].on) {
                continue;
            }
            const bad = json(sys.s[n].v) === json(sys.d.empty);
            const shown = messages(this.node(sys, n));
            const want = sys.show[n] && bad ? 1 : 0;
            if (shown.length !== want) {
                return `field ${n} holds ${json(sys.s[n].v)} (${bad ? 'missing' : 'fine'}) and shows ${json(shown)}; its failures are ${sys.show[n] ? '' : 'not '}due to be shown`;
            }
        }
        const changed = NAMES.some((n) => sys.s[n].on && sys.changed[n]);
        if (sys.form.value.changed !== changed) {
            return `form.changed is ${sys.form.value.changed}, expected ${changed}`;
        }
        return null;
    },

    state(sys) {
        return json([sys.s, sys.show, sys.changed]);
    },
};
