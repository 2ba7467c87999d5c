// Small DOM helpers shared by the UI checks: what a user can do, and what a user can see.
export const all = (root, sel) => [...root.querySelectorAll(sel)];
export const text = (el) => (el ? el.textContent.replace(/\s+/g, ' ').trim() : null);

export function click(el) {
    el.dispatchEvent(new MouseEvent('click', { bubbles: true, cancelable: true }));
}

export function key(target, code, opts = {}) {
    const e = new KeyboardEvent('keydown', { key: code === 'Space' ? ' ' : code, code, bubbles: true, cancelable: true, ...opts });
    target.dispatchEvent(e);
    return e;
}

export function typeInto(el, value) {
    if (el.disabled || el.readOnly) {
        return;
    }
    el.value = value;
    el.dispatchEvent(new Event('input', { bubbles: true }));
}

// what the browser does when the user clicks a checkbox / radio
export function nativeToggle(el) {
    el.click();
}

export function messages(root) {
    return all(root, '.vs-message').map((m) => text(m.querySelector('.vs-message-text') || m));
}

export const json = (v) =>
    JSON.stringify(v, (k, x) => (x === undefined ? '__undefined' : x instanceof File ? `File(${x.name}${x.size > 1 ? ' ' + x.size : ''})` : x));

export const same = (a, b) => json(a) === json(b);

// all subsets / permutations / products for finite input sets
export function product(...lists) {
    return lists.reduce((acc, l) => acc.flatMap((a) => l.map((x) => [...a, x])), [[]]);
}

export function sequences(alphabet, maxLen, minLen = 0) {
    const out = [];
    let layer = [[]];
    for (let n = 0; n <= maxLen; n++) {
        if (n >= minLen) {
            out.push(...layer);
        }
        layer = layer.flatMap((s) => alphabet.map((a) => [...s, a]));
    }
    return out;
}

export function permutations(list) {
    if (list.length <= 1) {
        return [list];
    }
    return list.flatMap((x, i) => permutations([...list.slice(0, i), ...list.slice(i + 1)]).map((p) => [x, ...p]));
}
