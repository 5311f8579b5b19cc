1;
function r = num(v)
  r = ['[' lower(strjoin(cellstr(num2str0(v)), ',')) ']'];
end
function c = num2str0(v)
  v = double(v(:)); if isempty(v), c = ''; else c = sprintf('"%.17g",', v)(1:end-1); end
end
function r = nums(X)
  r = '['; for k = 1:size(X, 2), if k > 1, r = [r ',']; end, r = [r num(X(:, k))]; end, r = [r ']'];
end
function r = list(v)
  v = double(v(:)); v(~isfinite(v) | v ~= round(v) | abs(v) > 2147483647) = -1999999999; r = ['[' sprintf('%d,', v)(1:end-1) ']']; % what is no integer is never expected
end
function put(fid, e, varargin)
  s = ['{"e":"' e '"'];
  for k = 1:2:numel(varargin)
    v = varargin{k + 1}; if islogical(v), v = {'false', 'true'}{1 + v}; elseif isnumeric(v), v = list(v); if numel(varargin{k + 1}) == 1, v = v(2:end-1); end, end
    s = [s ',"' varargin{k} '":' v];
  end
  fprintf(fid, '%s}\n', s);
end
function r = quoted(s)
  r = ['"' s '"'];
end
function r = refused(f, varargin)
  r = false; try f(varargin{:}); catch, r = true; end
end
function nout2(f, varargin)
  [a, b] = f(varargin{:});
end
function bad(fid, name, f, varargin)
  put(fid, 'Refuse', 'what', quoted(name), 'refused', refused(f, varargin{:}));
end
% the options in some order, their names in some case
function o = mix(varargin)
  o = {}; p = randperm(numel(varargin));
  for k = p, v = varargin{k}; n = v{1}; switch floor(rand * 3), case 0, n = lower(n); case 1, n = upper(n); end, o = [o {n} v(2:end)]; end
end
function r = pick(varargin)
  r = varargin{ceil(rand * numel(varargin))};
end
% an image, or its channels: columns of numbers
function r = pic(I)
  r = '['; for k = 1:size(I, 3), if k > 1, r = [r ',']; end, r = [r nums(I(:, :, k))]; end, r = [r ']'];
end
function r = ints(I)
  r = '['; for k = 1:size(I, 2), if k > 1, r = [r ',']; end, r = [r list(double(I(:, k)))]; end, r = [r ']'];
end
function r = ipic(I)
  r = '['; for k = 1:size(I, 3), if k > 1, r = [r ',']; end, r = [r ints(I(:, :, k))]; end, r = [r ']'];
end
function r = squeeze1(A, k)
  r = reshape(A(:, :, k, :), size(A, 1), size(A, 2), 3);
end
function o = opt(name, value, default)
  o = {}; if ~isequal(value, default) || rand < .3, o = {{name, value}}; end
end
function r = word(w)
  r = pick(w, lower(w), upper(w));
end
function w = cased(w)
  switch floor(rand * 4), case 0, w = upper(w); case 1, w = lower(w); end
end
% a value: a leaf or a structure
function r = node(v)
  if ~isstruct(v), if isnumeric(v) && isscalar(v), r = sprintf('{"k":"n","v":%s}', list(v)(2:end-1)); else r = '{"k":"x","v":0}'; end, return; end
  if numel(v) ~= 1, r = '{"k":"x","v":1}'; return; end
  f = fieldnames(v)'; q = cellfun(@(s) ['"' s '"'], f, 'UniformOutput', false); l = lower(q); c = cellfun(@(s) node(v.(s)), f, 'UniformOutput', false);
  r = ['{"k":"s","f":[' strjoin(q, ',') '],"l":[' strjoin(l, ',') '],"v":[' strjoin(c, ',') ']}'];
end
% an option list
function r = items(a)
  c = {}; k = 1;
  while k <= numel(a)
    if isstruct(a{k}), c{end + 1} = node(a{k}); k += 1; continue; end
    p = strsplit(a{k}, '.'); v = a{k + 1}; for j = numel(p):-1:2, v = struct(p{j}, v); end
    c{end + 1} = ['{"k":"p","name":"' p{1} '","low":"' lower(p{1}) '","value":' node(v) '}']; k += 2;
  end
  r = ['[' strjoin(c, ',') ']'];
end
function n = names(unknown)
  n = {'Alpha', 'beta', 'Alphabet', 'delta'}; n = n(randperm(4)); n = n(1:ceil(rand * 4)); if unknown && rand < .5, n = [n, {pick('zeta', 'bet')}](randperm(numel(n) + 1)); end
end
function v = defaults(depth)
  v = struct(); for f = names(false), if depth < 3 && rand < .4, if rand < .25, w = struct(); else, w = defaults(depth + 1); end, else w = floor(rand * 1000); end, v.(f{1}) = w; end
end
% values for the fields of a structure, mostly matching
function v = update(o, depth, unknown, ch)
  v = struct(); for f = names(unknown && rand < .6), g = f{1}; if ~any(strcmpi(g, {'zeta', 'bet'})) && ch, g = cased(g); end
    v.(g) = one(o, f{1}, depth, unknown, ch); end
end
function w = one(o, f, depth, unknown, ch)
  d = []; if isstruct(o), p = find(strcmpi(f, fieldnames(o))); if numel(p) == 1, d = o.(fieldnames(o){p}); end, end
  if depth < 3 && (isstruct(d) && rand < .97 || rand < .15), w = update(d, depth + 1, unknown, ch); else w = floor(rand * 1000); end
end
function v = jitter(v)
  if ~isstruct(v), v = floor(rand * 1000); return; end
  for f = fieldnames(v)', v.(f{1}) = jitter(v.(f{1})); end
end
function y = quad(x, A, b, c)
  x = x(:); y = zeros(numel(c), 1); for k = 1:numel(c), y(k) = c(k) + b(k, :) * x + x' * A(:, :, k) * x; end
end
warning('off');
a = argv(); seed = str2num(a{2}); rand('state', seed); randn('state', seed); part = 0; fid = -1;
n = 2400; if strcmp(a{3}, 'thorough'), n = 40000; end
only = getenv('VF_KIND'); kinds = {'parse', 'parse', 'parse', 'over', 'over', 'columns', 'marg', 'sort', 'special', 'der'};
for t = 1:n
  if mod(t - 1, 150) == 0, if fid >= 0, fclose(fid); end, part += 1; fid = fopen(sprintf('%s/help-%03d.ndjson', a{1}, part), 'w'); end
  kind = kinds{1 + mod(t - 1, numel(kinds))}; if ~isempty(only), kind = only; end
  try
  switch kind
  case 'parse'
    o = defaults(1); mg = rand < .3; rc = rand < .8; two = rand < .6; L = {}; used = {}; deep = {}; inside = {}; D = fieldnames(o);
    for k = 1:floor(rand * 5)
      if rand < .25 && (rc || rand < .3)
        s = update(o, 2, mg || two || rand < .05, true); for f = fieldnames(s)', p = find(strcmpi(f{1}, D)); again = any(strcmpi(f{1}, used));
          if again && ~(numel(p) == 1 && (isstruct(o.(D{p})) && numel(fieldnames(o.(D{p}))) > 0 && isstruct(s.(f{1})) && rc || ~isstruct(o.(D{p})) && ~isstruct(s.(f{1})) && ~any(strcmpi(f{1}, deep)))), s = rmfield(s, f{1}); end, end
        if rand < .9 && isempty(fieldnames(s)), continue; end
        for f = fieldnames(s)', used{end + 1} = f{1}; inside{end + 1} = f{1}; if isstruct(s.(f{1})), deep{end + 1} = f{1}; end, end, L{end + 1} = s;
      else
        if rand < .15 && (mg || two || rand < .1), f = pick('zeta', 'bet'); else, f = D{ceil(rand * numel(D))}; end, p = find(strcmpi(f, D)); v = one(o, f, 1, mg || two, true);
        nm = f; if ~isempty(p), nm = cased(f); end
        if any(strcmpi(f, used)) && ~(numel(p) == 1 && (isstruct(o.(D{p})) && numel(fieldnames(o.(D{p}))) == 0 && rc && ~any(strcmpi(f, inside)) || isstruct(o.(D{p})) && numel(fieldnames(o.(D{p}))) > 0 && isstruct(v) && rc || ~isstruct(o.(D{p})) && ~isstruct(v) && ~any(strcmpi(f, deep)))), continue; end
        used{end + 1} = f; if isstruct(v), deep{end + 1} = f; end
        while isstruct(v) && numel(fieldnames(v)) == 1 && rand < .7, q = fieldnames(v){1}; nm = [nm '.' q]; v = v.(q); end
        L(end + 1:end + 2) = {nm, v};
      end
    end
    fl = {}; if ~rc, fl{end + 1} = pick('nonrecursive', 'NonRecursive'); end, if mg, fl{end + 1} = pick('merge', 'MERGE'); end, if rand < .5, fl = fliplr(fl); end
    X = L; if numel(L) == 1 && isstruct(L{1}) && rand < .5, X = L{1}; end
    er = false; P = struct(); R = {}; try, if two, [P, R] = vl_argparse(o, X, fl{:}); else P = vl_argparse(o, X, fl{:}); end, catch e, er = true; end
    put(fid, 'Parse', 'rec', rc, 'merge', mg, 'two', two, 'opts', node(o), 'args', items(L), 'error', er, 'out', node(P), 'rest', items(R));
  case 'over'
    c = defaults(1); ci = rand < .5; sk = rand < .4; wn = rand < .5; u = update(c, 1, true, rand < .5); if rand < .1, u = 7; elseif rand < .1, c = 8; end
    if rand < .25 && isstruct(c) && isstruct(u)
      c = arrayfun(@(k) jitter(c), 1:pick(1, 2, 3)); u = arrayfun(@(k) jitter(u), 1:pick(1, 2, 3)); o = {}; if ci, o = {'casei'}; end, if sk, o{end + 1} = 'skip'; end
      q = vl_override(c, u, o{:}); f = @(v) ['[' strjoin(arrayfun(@node, v(:)', 'UniformOutput', false), ',') ']'];
      put(fid, 'Overs', 'casei', ci, 'skip', sk, 'config', f(c), 'update', f(u), 'out', f(q)); continue;
    end
    o = {}; if ci, o{end + 1} = word('CaseI'); end, if sk, o{end + 1} = word('Skip'); end, if wn, o{end + 1} = word('Warn'); end, o = o(randperm(numel(o)));
    warning('on', 'all'); ww = evalc('q = vl_override(c, u, o{:});'); w = ~isempty(regexp(ww, 'CONFIG')); warning('off', 'all');
    put(fid, 'Over', 'casei', ci, 'skip', sk, 'warn', wn, 'config', node(c), 'update', node(u), 'out', node(q), 'warned', w);
  case 'columns'
    X = floor(rand(ceil(rand * 3), floor(rand * 12)) * pick(2, 5, 50)); k = pick(0, 1, 2, 3, 5, 9, 40, Inf, .25, .5, .375, .75, .0625); md = pick('beginning', 'ending', 'uniform', 'largest', 'smallest', 'random');
    o = {word(md)}; if rand < .15, o = [{word('random')} o]; elseif rand < .1, o = [{word('ending')} o]; end, if strcmp(md, 'random') && rand < .5, o = {}; end
    if isempty(X) && any(md(1) == 'ls'), continue; end
    if isempty(o) && rand < .3, k = 1; [Y, s] = vl_colsubset(X); else [Y, s] = vl_colsubset(X, k, o{:}); end
    put(fid, 'Columns', 'mode', quoted(md), 'many', quoted(lower(sprintf('%.17g', k))), 'x', ints(X), 'y', ints(Y), 'rows', size(Y, 1) == size(X, 1), 'sel', list(s));
  case 'marg'
    z = ceil(rand(1, pick(2, 2, 3, 4)) * 4); if numel(z) > 2, z(end) += 1; end, H = floor(rand(z) * 100); d = randperm(numel(z)); d = d(1:ceil(rand * numel(d))); if rand < .3, d = d'; end
    Q = vl_histmarg(H, d); y = size(Q); e = max(2, numel(d)); y = [y ones(1, e - numel(y))];
    put(fid, 'Marg', 'size', list(z), 'dims', list(d), 'h', list(H), 'outsize', list(y), 'out', list(Q));
  case 'sort'
    S = {}; for k = 1:floor(rand * 7), w = ''; for j = 1:floor(rand * 4), switch floor(rand * 3), case 0, w = [w sprintf('%d', floor(rand * pick(10, 100, 1e4, 1e12)))]; case 1, w = [w pick('a', 'b', 'A', ' ', '-', '/', '_')]; case 2, w = [w pick('0', '00', '07')]; end, end, S{k} = w; end
    [Q, p] = vl_alphanum(S); f = @(C) ['[' strjoin(cellfun(@(s) list(double(s)), C(:)', 'UniformOutput', false), ',') ']'];
    put(fid, 'Sort', 'in', f(S), 'out', f(Q), 'perm', list(p));
  case 'special'
    x = randn(ceil(rand * 3), ceil(rand * 3)) * pick(.1, 1, 5); nm = pick('gaussian', 'dgaussian', 'ddgaussian', 'sigmoid', 'dsigmoid', 'rcos'); r = pick(0, .25, .5, 1); if rand < .5, x(1) = pick(0, 1, -1, 1 - r, r - 1); end
    F = str2func(['vl_' nm]); if strcmp(nm, 'rcos'), y = vl_rcos(r, x); else y = F(x); end
    put(fid, 'Special', 'name', quoted(nm), 'par', num(r)(2:end-1), 'shape', isequal(size(x), size(y)), 'x', num(x), 'y', num(y));
  case 'der'
    m = ceil(rand * 3); N = ceil(rand * 4); A = randn(N, N, m); b = randn(m, N); c = randn(m, 1); x = randn(N, 1); if rand < .3, x = x'; end, if N == 4 && rand < .4, x = reshape(x, 2, 2); end
    for k = 1:m, A(:, :, k) = (A(:, :, k) + A(:, :, k)') / 2; end, w = pick(1, 2); F = pick(@quad, @(x, A, b, c) quad(x, A, b, c));
    if w == 1, d = vl_numder(F, x, A, b, c); else d = reshape(vl_numder2(F, x, A, b, c), m, N * N); end
    put(fid, 'Der', 'order', w, 'x', num(x), 'a', pic(A), 'b', nums(b'), 'd', nums(d));
  end
  if mod(t, 100) == 1
    s = struct('a', 1);
    q = {{'vl_argparse of no structure', @vl_argparse, 3, {}}, {'vl_argparse of a name without value', @vl_argparse, s, {'a'}}, {'vl_argparse of a number', @vl_argparse, s, {1, 2}}, {'vl_argparse unknown mode', @vl_argparse, s, {}, 'foo'}, {'vl_argparse three modes', @vl_argparse, s, {}, 'merge', 'merge', 'merge'}, {'vl_argparse unknown option', @vl_argparse, s, {'b', 1}}, ...
      {'vl_colsubset negative', @vl_colsubset, [1 2 3], -1}, {'vl_colsubset neither natural nor fraction', @vl_colsubset, [1 2 3], 1.5}, {'vl_colsubset unknown mode', @vl_colsubset, [1 2 3], 1, 'foo'}, {'vl_override unknown option', @vl_override, s, s, 'foo'}};
    for k = 1:numel(q), bad(fid, q{k}{1}, q{k}{2:end}); end
  end
  catch err
    put(fid, 'Error', 'in', quoted([kind ': ' regexprep(err.message, '[^ -!#-\[\]-~]', ' ')]));
  end
end
fclose(fid);
