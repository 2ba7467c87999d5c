// What inputs report: every change once, every turn of changed and valid, focus and blur.
import { json } from '../lib/kit.mjs';
import { variants } from './P05.mjs';

const UNUSED = ['toggle button', 'search field']; // not form inputs
const EVENTS = ['update:modelValue', 'change', 'update:changed', 'update:valid', 'focus', 'blur'];
const kebab = (e) => 'on' + e[0].toUpperCase() + e.slice(1);
const copy = (v) => (Array.isArray(v) ? [...v] : v && typeof v === 'object' && !(v instanceof File) ? { ...v } : v);

// writes in normal form: how other writes are brought into it is another property
const plain = (v) => v.writes.filter((w) => json(v.norm(w)) === json(w) && v.view(w) !== undefined);

// a rule that refuses exactly one of the values that can be reached
function refused(v) {
    const e = v.edits[0][2];
    return typeof e === 'function' ? v.norm(e(v.init)) : v.norm(e);
}

export default {
    id: 'P30',
    world: 'ui',
    method: 'every sequence, up to the depth, of mounting with different models, user edits, page writes (new, equal, two at once), rule changes, clear, focus and blur calls on each real input; the reports of every step are compared with a reference model of value, changed, valid and focus',
    assumptions: [
        'the page echoes every model update, as v-model does, and writes values in their normal form',
        'the change event that a radio passes on from the browser, and the list of files that a file drop passes on, are not counted as reports of their own',
    ],

    scenarios(tier) {
        const deep = tier === 'thorough';
        return variants()
            .filter((v) => !UNUSED.includes(v.name))
            .flatMap((v) => [
                { name: v.name, wide: deep, depth: v.comp === 'VsSelect' ? 4 : deep ? 5 : 4 },
                // an input that the user may not change still reports what the page does with it
                ...['disabled', 'readonly'].map((bar) => ({ name: `${v.name}, ${bar}`, of: v.name, bar, depth: deep ? 4 : 3 })),
            ]);
    },

    async start(env, sc) {
        const { reactive, ref } = env.vue;
        const v = variants().find((x) => x.name === (sc.of ?? sc.name));
        const state = reactive({ v: v.init, strict: true });
        return { env, v, lib: env.instance(), state, input: ref(null), heard: [], want: null, complaint: null, wide: sc.wide, bar: sc.bar, bad: json(refused(v)) };
    },

    mount(sys, init) {
        const { env, v, state, lib } = sys;
        const { h } = env.vue;
        state.v = init;
        const rule = (x) => (json(x) === sys.bad ? 'refused' : '');
        const strict = [rule];
        const lax = [() => ''];
        const on = Object.fromEntries(
            EVENTS.map((e) => [
                kebab(e),
                (x) => {
                    if ((e === 'change' && x instanceof Event) || (e === 'update:changed' && Array.isArray(x))) {
                        return;
                    }
                    sys.heard.push([e, e === 'focus' || e === 'blur' ? '' : json(x)]);
                    e === 'update:modelValue' && (state.v = x);
                },
            ]),
        );
        sys.app = env.mount({
            render: () => h(lib[v.comp], { ...v.props, ...(sys.bar ? { [sys.bar]: true } : {}), ...on, ref: sys.input, noDefaultRules: true, rules: state.strict ? strict : lax, modelValue: state.v }),
        });
    },

    enabled(sys) {
        const { v } = sys;
        if (!sys.app) {
            return ['mount init', 'mount undefined', 'mount 0', ...(sys.bar ? ['mount bad'] : [])];
        }
        const out = [];
        plain(v).slice(0, sys.wide ? 9 : 2).forEach((w, i) => out.push('write ' + i));
        if (sys.bar) {
            return [...out, 'rewrite', 'rules', 'clear'];
        }
        v.edits.slice(0, sys.wide ? 9 : 2).forEach((e, i) => out.push('edit ' + i));
        out.push('rewrite', 'rules', 'clear');
        plain(v).length > 1 && out.push('write twice');
        out.push(sys.focused ? 'blur' : 'focus');
        return out;
    },

    async step(sys, action) {
        const { env, v, state } = sys;
        const [kind, arg] = action.split(' ');
        sys.heard.length = 0;
        const before = { value: sys.value, changed: sys.changed, valid: sys.valid, focused: sys.focused };
        if (kind === 'mount') {
            const init = arg === 'init' ? v.init : arg === 'undefined' ? undefined : arg === 'bad' ? refused(v) : plain(v)[arg];
            await env.act(() => this.mount(sys, copy(init)));
            await env.flush();
            // the normal form of nothing is the empty value of the input
            sys.value = init === undefined ? v.cleared : init;
            sys.changed = false;
            sys.valid = json(sys.value) !== sys.bad;
            before.valid = true; // until an input has reported otherwise it counts as valid
            sys.want = { value: [], changed: [], valid: sys.valid ? [] : [false] };
            sys.mounting = true;
        } else {
            sys.mounting = false;
            let next = sys.value;
            let cleared = false;
            if (kind === 'write' && arg !== 'twice') {
                next = plain(v)[arg];
                await env.act(() => (state.v = copy(next)));
            } else if (kind === 'write') {
                next = plain(v)[0];
                await env.act(() => {
                    state.v = copy(plain(v)[1]);
                    state.v = copy(next);
                });
            } else if (kind === 'rewrite') {
                await env.act(() => (state.v = copy(state.v)));
            } else if (kind === 'edit') {
                const e = v.edits[arg];
                const to = typeof e[2] === 'function' ? e[2](sys.value) : v.refuses?.(sys.value, e[2]) ? sys.value : e[2];
                next = v.norm(to);
                if (e[3] === 'async') {
                    await e[1](sys.app.el, env);
                } else {
                    await env.act(() => e[1](sys.app.el));
                }
            } else if (kind === 'rules') {
                await env.act(() => (state.strict = !state.strict));
            } else if (kind === 'clear') {
                next = v.cleared;
                cleared = true;
                await env.act(() => sys.input.value.clear());
            } else if (kind === 'focus' || kind === 'blur') {
                await env.act(() => sys.input.value[kind]());
                const inside = sys.app.el.contains(document.activeElement);
                if (inside !== (kind === 'focus')) {
                    sys.complaint = `${kind}() left the focus ${inside ? 'in' : 'outside'} the input`;
                }
            }
            const turned = json(next) !== json(before.value);
            sys.value = next;
            sys.changed = cleared ? false : before.changed || turned;
            sys.valid = !state.strict || json(next) !== sys.bad;
            sys.want = {
                value: turned ? [json(next)] : [],
                changed: sys.changed !== before.changed ? [sys.changed] : [],
                flicker: cleared && turned && !before.changed, // a value that goes away by clearing may count as changed for a moment
                valid: sys.valid !== before.valid ? [sys.valid] : [],
            };
        }
        // asking for the verdict reports nothing
        const answer = sys.input.value.validate();
        await env.flush();
        if (answer !== sys.valid) {
            sys.complaint = `validate() answered ${answer}, expected ${sys.valid}`;
        }
        sys.focused = sys.app.el.contains(document.activeElement);
        sys.want.focus = sys.focused === !!before.focused ? [] : [sys.focused ? 'focus' : 'blur'];
    },

    verdict(sys) {
        const { env, heard, want } = sys;
        if (sys.complaint) {
            return sys.complaint;
        }
        if (env.errors.length) {
            return 'an error was thrown: ' + env.errors[0];
        }
        if (!want) {
            return null;
        }
        const of = (e) => heard.filter(([n]) => n === e).map(([, x]) => x);
        const check = (what, got, expected) => (json(got) === json(expected) ? null : `${what} reported ${json(got)}, expected ${json(expected)}`);
        const changed = of('update:changed');
        const models = of('update:modelValue');
        return (
            check('change', of('change'), want.value) ??
            (sys.mounting && models.length <= 1 ? null : check('update:modelValue', models, want.value)) ??
            (want.flicker && json(changed) === json(['true', 'false']) ? null : check('update:changed', changed, want.changed.map(String))) ??
            check('update:valid', of('update:valid'), want.valid.map(String)) ??
            check('the focus', heard.filter(([n]) => n === 'focus' || n === 'blur').map(([n]) => n), want.focus)
        );
    },

    state(sys) {
        return json([sys.value, sys.changed, sys.valid, sys.focused, sys.state.strict, sys.heard]);
    },
};
