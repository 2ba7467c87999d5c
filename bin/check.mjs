#!/usr/bin/env node
// node bin/check.mjs <ID> [quick|thorough] [--replay FILE] [--scenario NAME] [--verbose]
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import crypto from 'node:crypto';
import { pathToFileURL } from 'node:url';
import { VERIF } from '../lib/paths.mjs';
import { Pool, Stuck } from '../lib/pool.mjs';

const args = process.argv.slice(2);
const id = args[0];
const tier = args.find((a) => a === 'quick' || a === 'thorough') || process.env.VERIF_TIER || 'quick';
const opt = (name) => {
    const i = args.indexOf(name);
    return i >= 0 ? args[i + 1] : undefined;
};
const t0 = Date.now();
const scratch = fs.mkdtempSync(path.join(os.tmpdir(), `verif-${id}-`));
let pool;

const say = (s) => process.stdout.write(s + '\n');

function known() {
    const file = path.join(VERIF, 'known-findings.json');
    const all = fs.existsSync(file) ? JSON.parse(fs.readFileSync(file, 'utf8')).findings : [];
    return all.filter((f) => f.property === id && f.status === 'open');
}

function writeEvidence(check, agg, violations) {
    const dir = path.join(VERIF, 'evidence');
    fs.mkdirSync(dir, { recursive: true });
    const evidence = {
        property: id,
        tier,
        seed: Number(process.env.VERIF_SEED || 1),
        level: 'model_checking',
        coverage: {
            states: agg.states.size,
            transitions: agg.transitions,
            traces_validated_against_impl: agg.executions,
            samples: agg.samples.slice(0, 6),
            exhaustive: !agg.capped && violations === 0,
            distinct_final_outcomes: agg.outcomes.size,
            bounds: agg.bounds,
            method: check.method,
            determinism_replays: agg.determinism,
        },
        assumptions: check.assumptions || [],
        wall_s: (Date.now() - t0) / 1000,
        violations,
    };
    fs.writeFileSync(path.join(dir, `${id}.json`), JSON.stringify(evidence, null, 1) + '\n');
}

async function replay(scenario, actions) {
    try {
        return await pool.run({ type: 'replay', scenario, actions });
    } catch (e) {
        if (e instanceof Stuck) {
            return { trace: [], violation: { message: e.what } };
        }
        throw e;
    }
}

async function main() {
    const check = (await import(pathToFileURL(path.join(VERIF, 'checks', id + '.mjs')).href)).default;
    const { build } = await import(pathToFileURL(path.join(VERIF, 'lib', `build-${check.world}.mjs`)).href);
    const built = await build(scratch, check);
    pool = new Pool(scratch, opt('--replay') ? 1 : undefined);
    await pool.start({ check: id, bundle: built });

    if (opt('--replay')) {
        const rec = JSON.parse(fs.readFileSync(opt('--replay'), 'utf8'));
        const run = await replay(rec.scenario, rec.actions);
        run.trace.forEach((s, i) => say(`${i === 0 ? '(start)' : rec.actions[i - 1]}\n    ${s}`));
        if (run.violation) {
            say(`reproduced: ${run.violation.message}`);
            return 1;
        }
        say('not reproduced');
        return 0;
    }

    const agg = { states: new Set(), outcomes: new Set(), transitions: 0, executions: 0, samples: [], bounds: [], determinism: 0, capped: false };
    const findings = known();
    const seenKnown = new Set();
    const violations = [];
    const merge = (r, name) => {
        r.states.forEach((s) => agg.states.add(name + s));
        (r.outcomes || []).forEach((s) => agg.outcomes.add(name + s));
        agg.transitions += r.transitions;
        agg.executions += r.executions;
        agg.capped ||= !!r.capped;
        if (agg.samples.filter((s) => s.scenario === name).length < 1) {
            agg.samples.push(...r.samples.slice(-1));
        }
    };

    let scenarios = check.scenarios(tier);
    if (opt('--scenario')) {
        scenarios = scenarios.filter((s) => s.name.includes(opt('--scenario')));
    }
    for (const scenario of scenarios) {
        const started = Date.now();
        const before = { e: agg.executions, t: agg.transitions };
        let results = [];
        let bad = null;
        const stuck = (e) => {
            if (!(e instanceof Stuck) || !e.at) {
                throw e;
            }
            bad = { scenario, actions: e.at.actions, message: e.what };
        };
        if (scenario.enumerate) {
            const { total } = await pool.run({ type: 'size', scenario }).catch((e) => ({ total: 0, none: stuck(e) }));
            const parts = Math.min(total, pool.size * 4);
            results = Array.from({ length: parts }, (_, k) =>
                pool.run({ type: 'enumerate', scenario, from: k, to: total, stride: parts }),
            );
        } else {
            try {
                // the first schedule is replayed twice: the harness owns every choice, or this fails
                const one = await pool.run({ type: 'replay', scenario, actions: [], depth: scenario.depth });
                const two = await pool.run({ type: 'replay', scenario, actions: [], depth: scenario.depth });
                if (JSON.stringify(one.trace) !== JSON.stringify(two.trace)) {
                    throw new Error(`nondeterministic replay in scenario ${scenario.name}`);
                }
                agg.determinism++;
                const split = Math.min(scenario.split ?? 2, scenario.depth);
                const { list } = await pool.run({ type: 'prefixes', scenario, len: split });
                results = list.map((root) => pool.run({ type: 'subtree', scenario, root }));
            } catch (e) {
                stuck(e);
            }
        }
        await Promise.all(
            results.map((p) =>
                p.then((r) => {
                    merge(r, scenario.name);
                    if (r.violation && (!bad || r.violation.actions.length < bad.actions.length)) {
                        bad = r.violation;
                    }
                    if (r.violation) {
                        pool.drop();
                        results.forEach((q) => q.catch(() => {}));
                    }
                    return r;
                }).then((r) => (r.violation ? Promise.reject({ stop: true }) : r)),
            ),
        ).catch((e) => {
            pool.drop();
            results.forEach((q) => q.catch(() => {}));
            if (!e || !e.stop) {
                stuck(e);
            }
        });
        const spent = ((Date.now() - started) / 1000).toFixed(1);
        const bound = `${scenario.name}: ${scenario.enumerate ? 'all inputs' : `all action sequences of length <= ${scenario.depth}`}${scenario.prune ? ' (visited-state pruning)' : ''}; ${agg.executions - before.e} executions, ${agg.transitions - before.t} transitions`;
        agg.bounds.push(bound);
        say(`  ${bound}, ${spent} s`);
        if (bad) {
            // a violation counts only if the same schedule shows it again, from a fresh system, twice
            const again = [];
            for (let k = 0; k < 2; k++) {
                pool.close();
                pool = new Pool(scratch, 1);
                await pool.start({ check: id, bundle: built });
                again.push(await replay(scenario, bad.actions));
            }
            const rec = { property: id, scenario, actions: bad.actions, message: bad.message, case: bad.case };
            const name = `${id}-${crypto.createHash('sha1').update(JSON.stringify([scenario, bad.actions])).digest('hex').slice(0, 10)}.json`;
            const dir = path.join(VERIF, 'replays');
            fs.mkdirSync(dir, { recursive: true });
            const file = path.join(dir, name);
            fs.writeFileSync(file, JSON.stringify(rec, null, 1) + '\n');
            if (!again.every((r) => r.violation)) {
                throw new Error(`violation did not reproduce on replay (${file}): ${bad.message}`);
            }
            violations.push({ file, rec });
            break;
        }
    }
    for (const line of check.reported?.(tier) || []) {
        seenKnown.add(line);
    }
    for (const f of findings) {
        say(`KNOWN-FINDING: property=${id} ${f.what}`);
    }
    writeEvidence(check, agg, violations.length);
    for (const v of violations) {
        say(`${v.rec.scenario.name}: [${v.rec.actions.join(' ')}] ${v.rec.message}`);
        say(`VIOLATION property=${id} replay=${v.file}`);
    }
    if (violations.length === 0) {
        say(`OK property=${id} tier=${tier} executions=${agg.executions} transitions=${agg.transitions} states=${agg.states.size} outcomes=${agg.outcomes.size} ${((Date.now() - t0) / 1000).toFixed(1)}s`);
    }
    return violations.length ? 1 : 0;
}

let code = 2;
try {
    code = await main();
} catch (e) {
    process.stderr.write(`check ${id} failed: ${(e && e.stack) || e}\n`);
    code = 2;
} finally {
    pool?.close();
    fs.rmSync(scratch, { recursive: true, force: true });
}
process.exit(code);
