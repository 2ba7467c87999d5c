// What surrounds the value of an input: label, required mark, messages, state, name, placeholder, locks and the shake.
import { drivers, valuesOf } from '../lib/inputs.mjs';
import { all, json, messages, text } from '../lib/kit.mjs';

const NAMES = Object.keys(drivers);
const STATES = ['idle', 'info', 'success', 'warning', 'error'];
const SETS = ['VsRadioSet', 'VsCheckboxSet'];
const control = (el) => all(el, 'input, textarea');

const ACTS = {
    label: ['label=one', 'label=', 'slot=flip', 'noLabel=flip', 'required=flip', 'disabled=flip'],
    state: [...STATES.map((s) => `state=${s}`), 'validate', 'edit', 'right', 'clear', 'rule=flip'],
    messages: ['noMessages=flip', 'helper=flip', 'validate', 'edit', 'clear', 'disabled=flip', 'rule=flip'],
    control: ['name=p', 'name=q', 'placeholder=here', 'placeholder=', 'disabled=flip', 'readonly=flip', 'form.disabled=flip', 'form.readonly=flip', 'required=flip', 'hidden=flip', 'id=own', 'id=other'],
    shake: ['validate', 'form.validate', 'edit', 'right', 'clear', 'wait 200', 'wait 700'],
};

export default {
    id: 'P32',
    world: 'ui',
    method: 'every sequence, up to the depth, of changing label, marks, messages, state, name, placeholder and locks of every input and of its form, editing, validating and clearing it; what is shown around the value is compared after every step with the settings',
    assumptions: ['a change of a setting that makes the value invalid counts as displayed only once the input has been changed or validated'],

    scenarios(tier) {
        const deep = tier === 'thorough';
        return NAMES.flatMap((name) => Object.keys(ACTS).map((kind) => ({ name: `${name}: ${kind}`, input: name, kind, depth: (name === 'VsInput' ? 4 : 3) + (deep ? 1 : 0) - (name === 'VsSelect' && kind !== 'label' ? 1 : 0) })));
    },

    async start(env, sc) {
        const { h, shallowReactive } = env.vue;
        const lib = env.instance();
        const d = drivers[sc.input];
        const sys = { env, sc, d, shaken: null };
        const m = (sys.m = { label: 'a label', slot: false, noLabel: false, required: false, disabled: false, readonly: false, hidden: false, formDisabled: false, formReadonly: false, state: 'idle', noMessages: false, helper: false, name: d.props?.name ?? 'n', placeholder: 'type', id: 'first', rule: true, displayed: false, value: d.empty, now: 0, shakes: [] });
        const p = (sys.p = shallowReactive({ ...m }));
        // fails for every value but the last one the driver can produce
        const values = valuesOf(d);
        sys.good = sc.input === 'VsRadio' || sc.input === 'VsCheckbox' || sc.input === 'VsSwitch' ? values[0] : values.at(-1);
        sys.bad = sc.input === 'VsRadio' ? null : values.find((v) => v !== sys.good);
        sys.fails = (v) => sys.m.rule && !(Array.isArray(v) ? json(v.map?.((x) => x.name ?? x)) === json(sys.good.map((x) => x.name ?? x)) : v === sys.good);
        const rule = (v) => (Array.isArray(v) ? (json(v.map((x) => x.name ?? x)) === json(sys.good.map((x) => x.name ?? x)) ? '' : 'wrong') : v === sys.good ? '' : 'wrong');
        const rules = [rule];
        const none = [];
        const helper = [{ state: 'info', text: 'help' }];
        const model = env.vue.ref(d.empty);
        sys.model = model;
        sys.app = await env.mount({
            setup: () => {
                sys.inputRef = env.vue.ref(null);
                sys.formRef = env.vue.ref(null);
                return () =>
                    h(lib.VsForm, { ref: sys.formRef, disabled: p.formDisabled, readonly: p.formReadonly }, () =>
                        h(
                            lib[sc.input],
                            {
                                ...d.props,
                                ref: sys.inputRef,
                                modelValue: model.value,
                                'onUpdate:modelValue': (v) => (model.value = v),
                                label: p.label,
                                noLabel: p.noLabel,
                                required: p.required,
                                noDefaultRules: true,
                                disabled: p.disabled,
                                readonly: p.readonly,
                                hidden: p.hidden,
                                state: p.state,
                                noMessages: p.noMessages,
                                messages: p.helper ? helper : none,
                                rules: p.rule ? rules : none,
                                name: p.name,
                                ...(['VsInput', 'VsTextarea', 'VsDatePicker', 'VsSelect', 'VsFileDrop'].includes(sc.input) ? { placeholder: p.placeholder } : {}),
                                id: p.id,
                            },
                            p.slot ? { label: () => h('b', 'slotted') } : {},
                        ),
                    );
            },
        });
        return sys;
    },

    enabled(sys) {
        const { m, sc } = sys;
        const locked = m.disabled || m.readonly || m.formDisabled || m.formReadonly;
        const noPlaceholder = !['VsInput', 'VsTextarea', 'VsDatePicker', 'VsSelect', 'VsFileDrop'].includes(sc.input);
        return ACTS[sc.kind].filter((a) => {
            if (a === 'edit' || a === 'right') {
                const v = a === 'edit' ? sys.bad : sys.good;
                if (locked || v === null || json(v.map?.((x) => x.name ?? x) ?? v) === json(m.value?.map?.((x) => x.name ?? x) ?? m.value)) {
                    return false;
                }
                // one click changes one choice
                return sc.input !== 'VsCheckboxSet' || ['x', 'y'].filter((o) => v.includes(o) !== m.value.includes(o)).length === 1;
            }
            if (a.startsWith('placeholder') && noPlaceholder) {
                return false;
            }
            const [, key, value] = /^([\w.]+)=(.*)$/.exec(a) ?? [];
            return !key || value === 'flip' || m[key] !== value;
        });
    },

    async step(sys, action) {
        const { env, m, p, d } = sys;
        const [, key, value] = /^([\w.]+)=(.*)$/.exec(action) ?? [];
        if (key) {
            const k = key.replace('form.d', 'formD').replace('form.r', 'formR');
            m[k] = value === 'flip' ? !m[k] : value;
            await env.act(() => (p[k] = m[k]));
        } else if (action === 'edit' || action === 'right') {
            const v = action === 'edit' ? sys.bad : sys.good;
            await env.act(() => d.edit(sys.app.el, v, env));
            m.value = v;
            m.displayed = true;
            if (d.slow) {
                m.now += 560;
            }
        } else if (action === 'validate' || action === 'form.validate') {
            await env.act(() => (action === 'validate' ? sys.inputRef : sys.formRef).value.validate());
            m.displayed = true;
            if (sys.fails(m.value)) {
                m.shakes = [...m.shakes, m.now];
            }
        } else if (action === 'clear') {
            await env.act(() => sys.inputRef.value.clear());
            m.value = d.empty;
            m.displayed = false;
        } else {
            const ms = Number(action.slice(5));
            await env.advance(ms);
            m.now += ms;
        }
    },

    verdict(sys) {
        const { m, sc, app } = sys;
        const el = app.el;
        if (sys.env.errors.length) {
            return `error: ${sys.env.errors[0]}`;
        }
        const wrong = (what, got, want) => (json(got) === json(want) ? null : `${what}: ${json(got)}, expected ${json(want)}`);
        const failing = m.displayed && sys.fails(m.value);
        const head = el.querySelector('.vs-label');
        const shownLabel = m.noLabel || !(m.label || m.slot) ? null : [m.slot ? 'slotted' : m.label, m.required];
        const star = head?.querySelector('.vs-required-star');
        const label = head ? [text(head).replace(/\s*\*$/, '').trim(), !!star] : null;
        const state = failing ? 'error' : m.state;
        const marked = all(el, '*').flatMap((e) => [...e.classList].filter((c) => c.startsWith('vs-state-') && c !== 'vs-state-box'));
        const options = SETS.includes(sc.input) ? d(sys).options.length : 1;
        const list = m.noMessages ? [] : [...(m.helper ? ['help'] : []), ...(failing ? ['wrong'] : [])];
        const disabled = m.disabled || m.formDisabled;
        const readonly = m.readonly || m.formReadonly;
        const wrapper = el.querySelector('.vs-input-wrapper');
        const last = m.shakes.at(-1) ?? -Infinity;
        const shaking = m.now - last < 600;
        // two failed validations within 0.6 seconds: the end of the first shake may also end the second
        const unclear = m.shakes.some((t) => t + 600 > last && t + 600 <= m.now && t !== last);
        const found =
            wrong('label', label, shownLabel) ??
            wrong('label greyed', head ? head.classList.contains('vs-disabled') : null, head ? disabled : null) ??
            wrong('state', marked, state === 'idle' ? [] : Array(options).fill('vs-state-' + state)) ??
            wrong('messages', messages(el).sort(), list.sort()) ??
            wrong('hidden', wrapper.style.display === 'none', m.hidden);
        if (found) {
            return found;
        }
        if (sc.kind === 'shake' && !unclear && wrapper.classList.contains('shake-horizontal') !== shaking) {
            return `shakes: ${!shaking}, expected ${shaking}`;
        }
        if (sc.input === 'VsSelect') {
            const place = el.querySelector('.vs-select-placeholder');
            return wrong('placeholder', place ? text(place) : null, m.value === null ? m.placeholder : null) ?? wrong('id', el.querySelector('.vs-select-trigger').id, m.id + '-trigger');
        }
        const native = control(el);
        const click = ['VsCheckbox', 'VsSwitch', 'VsRadio', ...SETS].includes(sc.input);
        for (const [i, c] of native.entries()) {
            const bad =
                wrong('name', c.name, m.name) ??
                wrong('disabled', c.disabled, click ? disabled || readonly : disabled) ??
                (click ? null : wrong('readonly', c.hasAttribute('readonly'), readonly)) ??
                (sc.input === 'VsDatePicker' ? null : wrong('id', c.id, options > 1 ? `${m.id}-${i}` : m.id)) ??
                (sc.input === 'VsInput' || sc.input === 'VsTextarea' ? wrong('placeholder', c.placeholder, m.placeholder) : null) ??
                (sc.input === 'VsCheckboxSet' ? null : wrong('required', c.getAttribute('aria-required'), String(m.required)));
            if (bad) {
                return bad;
            }
        }
        return null;
    },

    state: (sys) => json([sys.sc.name, sys.m]),
};

const d = (sys) => sys.d.props;
