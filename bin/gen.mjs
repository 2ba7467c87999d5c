#!/usr/bin/env node
// Rewrites properties.jsonl, MANIFEST.json and the property table of DESIGN.md from spec/properties.mjs.
import fs from 'node:fs';
import path from 'node:path';
import { VERIF } from '../lib/paths.mjs';
import { properties, notApplicable } from '../spec/properties.mjs';

const trust =
    'Exhaustive within the bounds written in the evidence file; the explored executions are executions of the code in /repo (rebuilt on every run). Trusts jsdom, the Vue runtime and the virtual clock of the harness.';
const trustMcp =
    'Exhaustive within the bounds written in the evidence file; the explored executions are executions of the code in /repo (rebuilt on every run). Trusts Node and the stand-in for the network.';

const lines = properties.map((p) =>
    JSON.stringify({
        id: p.id,
        title: p.title,
        statement: p.statement,
        quantifier: { over: p.over, text: p.text },
        why_tests_cant: p.why,
        anchors: {
            files: p.files,
            mechanism: p.mechanism.map(([name, where]) => ({ name, where })),
            ...(p.state ? { state: p.state } : {}),
            observe_at: p.observe,
            hook_needed: null,
        },
    }),
);
fs.writeFileSync(path.join(VERIF, 'properties.jsonl'), lines.join('\n') + '\n');

const claimed = properties.filter((p) => !notApplicable.some((n) => n.property === p.id));
const manifest = {
    version: 1,
    setup_cmd: 'node bin/setup.mjs',
    checks: claimed.map((p) => ({
        property: p.id,
        quick_cmd: `node bin/check.mjs ${p.id} quick`,
        thorough_cmd: `node bin/check.mjs ${p.id} thorough`,
        evidence_file: `evidence/${p.id}.json`,
        technique: p.technique,
        level: 'model_checking',
        level_note: p.note || (p.mcp ? trustMcp : trust),
    })),
    not_applicable: notApplicable,
    notes: 'No hooks in /repo: the checks drive the public components, composables and services. Known findings: known-findings.json.',
};
fs.writeFileSync(path.join(VERIF, 'MANIFEST.json'), JSON.stringify(manifest, null, 1) + '\n');

const design = path.join(VERIF, 'DESIGN.md');
if (fs.existsSync(design)) {
    const s = fs.readFileSync(design, 'utf8');
    const a = s.indexOf('<!-- properties -->');
    const b = s.indexOf('<!-- /properties -->');
    if (a >= 0 && b > a) {
        const rows = properties.map((p) => `| ${p.id} | ${p.title} | ${p.technique} |`);
        const table = ['| id | property | how it is decided |', '| --- | --- | --- |', ...rows].join('\n');
        fs.writeFileSync(design, s.slice(0, a) + '<!-- properties -->\n' + table + '\n' + s.slice(b));
    }
}
