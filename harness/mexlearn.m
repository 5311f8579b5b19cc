1;
function r = num(v)
  r = ['[' lower(strjoin(cellstr(num2str0(v)), ',')) ']'];
end
function c = num2str0(v)
  v = double(v(:)); if isempty(v), c = ''; else c = sprintf('"%.17g",', v)(1:end-1); end
end
function r = nums(X)
  r = '['; for k = 1:size(X, 2), if k > 1, r = [r ',']; end, r = [r num(X(:, k))]; end, r = [r ']'];
end
function r = list(v)
  v = double(v(:)); v(~isfinite(v) | v ~= round(v) | abs(v) > 2147483647) = -1999999999; r = ['[' sprintf('%d,', v)(1:end-1) ']']; % what is no integer is never expected
end
function put(fid, e, varargin)
  s = ['{"e":"' e '"'];
  for k = 1:2:numel(varargin)
    v = varargin{k + 1}; if islogical(v), v = {'false', 'true'}{1 + v}; elseif isnumeric(v), v = list(v); if numel(varargin{k + 1}) == 1, v = v(2:end-1); end, end
    s = [s ',"' varargin{k} '":' v];
  end
  fprintf(fid, '%s}\n', s);
end
function r = quoted(s)
  r = ['"' s '"'];
end
function r = refused(f, varargin)
  r = false; try f(varargin{:}); catch, r = true; end
end
function nout2(f, varargin)
  [a, b] = f(varargin{:});
end
function bad(fid, name, f, varargin)
  put(fid, 'Refuse', 'what', quoted(name), 'refused', refused(f, varargin{:}));
end
% the options in some order, their names in some case
function o = mix(varargin)
  o = {}; p = randperm(numel(varargin));
  for k = p, v = varargin{k}; n = v{1}; switch floor(rand * 3), case 0, n = lower(n); case 1, n = upper(n); end, o = [o {n} v(2:end)]; end
end
function r = pick(varargin)
  r = varargin{ceil(rand * numel(varargin))};
end
% an output against the library's: values in full, or some of them
function r = out(D, R, want, add)
  if nargin < 4, add = 0; end, R = double(R) + add; if strcmp(want, 'uint32'), R = mod(R, 2 ^ 32); end, J = 1:numel(R); if ~isequal(size(D), size(R)), J = []; elseif numel(J) > 250, J = sort(randperm(numel(R))(1:250)); end
  D0 = D; D = double(D) + 0; r = sprintf('{"cls":"%s","want":"%s","size":%s,"wsize":%s,"d":%s,"ref":%s}', class(D0), want, list(size(D)), list(size(R)), num(D(J)), num(R(J)));
end
function match(fid, what, varargin)
  put(fid, 'Match', 'what', quoted(what), 'outs', ['[' strjoin(varargin, ',') ']']);
end
function r = cols(X)
  r = '['; for k = 1:size(X, 2), if k > 1, r = [r ',']; end, r = [r list(double(X(:, k)))]; end, r = [r ']'];
end
function r = tree(t)
  s = {}; if isfield(t, 'sub') && ~isempty(t.sub), for k = 1:numel(t.sub), s{k} = tree(t.sub(k)); end, end
  r = ['{"c":' cols(t.centers) ',"s":[' strjoin(s, ',') ']}'];
end
function v = flat(t)
  v = double(t.centers(:)'); if isfield(t, 'sub') && ~isempty(t.sub), for k = 1:numel(t.sub), v = [v flat(t.sub(k))]; end, end
end
function o = opt(name, value, default)
  o = {}; if ~isequal(value, default) || rand < .3, o = {{name, value}}; end
end
function r = word(w)
  r = pick(w, lower(w), upper(w));
end
warning('off');
a = argv(); seed = str2num(a{2}); rand('state', seed); randn('state', seed); part = 0; fid = -1;
n = 360; if strcmp(a{3}, 'thorough'), n = 3600; end
only = getenv('VF_KIND'); kinds = {'kmeans', 'gmm', 'fisher', 'vlad', 'kdtree', 'kdexact', 'ikmeans', 'hikmeans', 'slic', 'quickshift', 'links', 'refuse'};
for t = 1:n
  if mod(t - 1, 24) == 0, if fid >= 0, fclose(fid); end, part += 1; fid = fopen(sprintf('%s/learn-%03d.ndjson', a{1}, part), 'w'); end
  kind = kinds{1 + mod(t - 1, numel(kinds))}; if ~isempty(only), kind = only; end
  sd = floor(rand * 1e6); cl = pick('single', 'double'); no = floor(rand * 6);
  try
  switch kind
  case 'kmeans'
    d = ceil(rand * 5); N = 4 + floor(rand * 40); K = ceil(rand * min(8, N)); X = cast(randn(d, N), cl); if rand < .2, X = round(X); end
    if rand < .15, d = 6; N = 180; K = 90 + floor(rand * 40); X = cast(randn(d, N), cl); end
    l1 = rand < .4; al = floor(rand * 3); pp = rand < .6; it = pick(100, 0, 1, 3); re = pick(1, 1, 2, 3); ev = pick(NaN, NaN, .2, 0); nt = pick(3, 1, 2); nc = pick(100, 5, 0); if K > 80, it = pick(1, 2); re = 1; al = 2; if rand < .7, nt = 3; nc = 100; end, end
    opts = [opt('Distance', word({'L2', 'L1'}{1 + l1}), 'L2'), opt('Algorithm', word({'Lloyd', 'Elkan', 'ANN'}{1 + al}), 'Lloyd'), opt('Initialization', word({'RandSel', 'PlusPlus'}{1 + pp}), 'PlusPlus'), opt('MaxNumIterations', it, 100), opt('NumRepetitions', re, 1), opt('NumTrees', nt, 3), opt('MaxNumComparisons', nc, 100)];
    if ~isnan(ev), opts{end + 1} = {'MinEnergyVariation', ev}; end, opts = mix(opts{:});
    vfref('seed', sd); [C, A, E] = vfref('kmeans', X, K, [l1 al pp it re ev nt nc]); vfref('seed', sd); k = 1 + mod(no, 3);
    [o{1:k}] = vl_kmeans(X, K, opts{:}); r = {out(o{1}, C, cl)}; if k > 1, r{2} = out(o{2}, A, 'uint32', 1); end, if k > 2, r{3} = out(o{3}, E, 'double'); end, match(fid, 'vl_kmeans', r{:});
  case 'gmm'
    d = ceil(rand * 4); N = 6 + floor(rand * 30); K = ceil(rand * 4); X = cast(randn(d, N), cl); ini = floor(rand * 3); it = pick(100, 0, 2, 5); re = pick(1, 1, 2); bo = pick([], .01, .01 + rand(1, d), .01 + rand(d, 1));
    opts = [opt('MaxNumIterations', it, 100), opt('NumRepetitions', re, 1)]; if ~isempty(bo), opts{end + 1} = {'CovarianceBound', bo}; end, P = M = S = []; if ini == 1 || ini == 0 && rand < .5, opts{end + 1} = {'Initialization', word({'rand', 'kmeans'}{1 + ini})}; end
    if ini == 2, P = cast(rand(K, 1), cl); P = P / sum(P); M = cast(randn(d, K), cl); S = cast(.3 + rand(d, K), cl); opts = [opts, {{'InitPriors', pick(P, P')}, {'InitMeans', M}, {'InitCovariances', S}}]; if rand < .5, opts{end + 1} = {'Initialization', word('custom')}; end, end
    opts = mix(opts{:}); vfref('seed', sd); [m1, s1, p1, e1, q1] = vfref('gmm', X, K, [ini it re], bo, P, M, S); vfref('seed', sd); k = 1 + mod(no, 5);
    o = {}; [o{1:k}] = vl_gmm(X, K, opts{:}); w = {m1, s1, p1, e1, q1}; c = {cl, cl, cl, 'double', cl}; r = {}; for j = 1:k, r{j} = out(o{j}, w{j}, c{j}); end, match(fid, 'vl_gmm', r{:});
  case 'fisher'
    d = ceil(rand * 4); N = floor(rand * 12); K = ceil(rand * 4); X = cast(randn(d, N), cl); M = cast(randn(d, K), cl); S = cast(.2 + rand(d, K), cl); P = cast(rand(K, 1), cl); P = P / sum(P); if rand < .2, P(1) = 0; end
    f = rand(1, 3) < .4; o = {}; if all(f(1:2)) && rand < .7, o = {{'Improved'}}; else if f(1), o{end + 1} = {'Normalized'}; end, if f(2), o{end + 1} = {'SquareRoot'}; end, end, if f(3), o{end + 1} = {'Fast'}; end, opts = mix(o{:});
    match(fid, 'vl_fisher', out(vl_fisher(X, M, S, pick(P, P'), opts{:}), vfref('fisher', X, M, S, P, double(f)), cl));
  case 'vlad'
    d = ceil(rand * 4); N = floor(rand * 12); K = ceil(rand * 4); X = cast(randn(d, N), cl); M = cast(randn(d, K), cl); A = cast(rand(K, N), cl); if rand < .5, A = cast((1:K)' == ceil(rand(1, N) * K), cl); end
    f = rand(1, 4) < .4; o = {}; w = {'Unnormalized', 'NormalizeComponents', 'NormalizeMass', 'SquareRoot'}; for j = find(f), o{end + 1} = {w{j}}; end, opts = mix(o{:});
    match(fid, 'vl_vlad', out(vl_vlad(X, M, A, opts{:}), vfref('vlad', X, M, A, double(f)), cl));
  case 'kdtree'
    d = ceil(rand * 5); N = 1 + floor(rand * 40); X = cast(randn(d, N), cl); if rand < .3, X = round(X); end, m = floor(rand * 7); Q = cast(randn(d, m), cl); l1 = rand < .4; me = rand < .4; nt = pick(1, 1, 2, 4); nn = pick(1, 1, 2, 5); nc = pick(0, 0, 3, 10, 50);
    b = mix([opt('Distance', word({'L2', 'L1'}{1 + l1}), 'L2'), opt('ThresholdMethod', word({'median', 'mean'}{1 + me}), 'median'), opt('NumTrees', nt, 1)]{:}); q = mix([opt('NumNeighbors', nn, 1), opt('MaxNumComparisons', nc, 0)]{:});
    vfref('seed', sd); [i1, d1] = vfref('kdtree', X, [l1 me nt], Q, [nn nc]); vfref('seed', sd); F = vl_kdtreebuild(X, b{:}); if no < 2, i2 = vl_kdtreequery(F, X, Q, q{:}); r = {out(i2, i1, 'uint32', 1)}; else [i2, d2] = vl_kdtreequery(F, X, Q, q{:}); r = {out(i2, mod(double(i1) + 1, 2 ^ 32), 'uint32'), out(d2, d1, cl)}; end, match(fid, 'vl_kdtreequery', r{:});
  case 'kdexact'
    d = ceil(rand * 3); N = 1 + floor(rand * 14); X = cast(floor(rand(d, N) * pick(2, 4, 20)), cl); m = floor(rand * 5); Q = cast(floor(rand(d, m) * 20) - 2, cl); l1 = rand < .4; nt = pick(1, 3); nn = pick(1, 2, N, N + 2);
    b = mix([opt('Distance', word({'L2', 'L1'}{1 + l1}), 'L2'), opt('ThresholdMethod', word(pick('median', 'mean')), 'median'), opt('NumTrees', nt, 1)]{:}); vfref('seed', sd); F = vl_kdtreebuild(X, b{:});
    g = {}; for k = 1:numel(F.trees), T = F.trees(k); g{k} = ['{"lo":' list(double(T.nodes.lowerChild)) ',"up":' list(double(T.nodes.upperChild)) ',"dim":' list(double(T.nodes.splitDimension)) ',"at":' num(T.nodes.splitThreshold) ',"index":' list(double(T.dataIndex)) '}']; end
    put(fid, 'Tree', 'x', cols(X), 'dimension', F.dimension, 'numData', F.numData, 'distance', quoted(lower(F.distance)), 'want', quoted({'l2', 'l1'}{1 + l1}), 'ntrees', nt, 'trees', ['[' strjoin(g, ',') ']']);
    [i2, d2] = vl_kdtreequery(F, X, Q, 'NumNeighbors', nn); d2(i2 == 0) = -1; put(fid, 'Near', 'x', cols(X), 'q', cols(Q), 'l1', l1, 'a', cols(i2), 'd', cols(d2));
  case 'ikmeans'
    d = ceil(rand * 4); N = 2 + floor(rand * 30); K = ceil(rand * min(N, 7)); X = uint8(floor(rand(d, N) * pick(3, 40, 256))); el = rand < .4; it = pick(200, 1, 2); o = [opt('MaxIters', it, 200), opt('Method', {'lloyd', 'elkan'}{1 + el}, 'lloyd')]; opts = mix(o{:});
    vfref('seed', sd); [C, A] = vfref('ikmeans', X, K, [el it]); vfref('seed', sd); if no < 2, c = vl_ikmeans(X, K, opts{:}); r = {out(c, C, 'int32')}; else [c, i2] = vl_ikmeans(X, K, opts{:}); r = {out(c, C, 'int32'), out(i2, A, 'uint32', 1)}; end, match(fid, 'vl_ikmeans', r{:});
    Y = uint8(floor(rand(d, floor(rand * 9)) * 256)); p = mix(opt('Method', {'lloyd', 'elkan'}{1 + (rand < .4)}, 'lloyd'){:}); A = vl_ikmeanspush(Y, C, p{:}); match(fid, 'vl_ikmeanspush', out(A, A, 'uint32')); put(fid, 'Push', 'c', cols(C), 'x', cols(Y), 'a', list(double(A)));
  case 'hikmeans'
    d = ceil(rand * 3); K = pick(2, 2, 3, 5); N = K + floor(rand * 60); X = uint8(floor(rand(d, N) * pick(6, 256))); nl = pick(1, K, K ^ 2, K ^ 3, K + 1, 7, K ^ 2 - 1); if K == 5 && N < 30, nl = min(nl, 25); end, dep = 1; while K ^ dep < nl, dep += 1; end
    el = rand < .4; it = pick(200, 200, 1); o = [opt('MaxIters', it, 200), opt('Method', {'lloyd', 'elkan'}{1 + el}, 'lloyd')]; opts = mix(o{:}); Y = uint8(floor(rand(d, floor(rand * 6)) * 256));
    vfref('seed', sd); [C, A, B] = vfref('hikmeans', X, K, dep, [el it], Y); vfref('seed', sd); if no < 2, T = vl_hikmeans(X, K, nl, opts{:}); r = {}; else [T, i2] = vl_hikmeans(X, K, nl, opts{:}); r = {out(i2, A, 'uint32', 1)}; end
    match(fid, 'vl_hikmeans', out(flat(T), C, 'double'), r{:}); P = vl_hikmeanspush(T, Y); match(fid, 'vl_hikmeanspush', out(P, B, 'uint32', 1));
    put(fid, 'Path', 'tree', tree(T), 'k', T.K, 'wk', K, 'depth', T.depth, 'wdepth', dep, 'x', cols(Y), 'p', cols(P));
  case 'slic'
    I = rand(4 + floor(rand * 20), 4 + floor(rand * 20), pick(1, 1, 3, 2), 'single'); s = 2 + floor(rand * 9); g = pick(0, .1, 1, 10); mn = pick(NaN, 0, 3); o = {}; m2 = mn; if isnan(mn), m2 = floor(s * s / 36); else o = {{'MinRegionSize', mn}}; end, opts = mix(o{:});
    if rand < .3, I = single(rand(20 + floor(rand * 20), 20 + floor(rand * 20)) > .88); s = pick(7, 8, 9, 10, 11, 13); g = pick(.001, .01); if isnan(mn), m2 = floor(s * s / 36); end, end
    match(fid, 'vl_slic', out(vl_slic(I, s, g, opts{:}), vfref('slic', I, [s g m2]), 'uint32'));
    % the default smallest region decides between regions of a few pixels
    for q = [9 10 11 11], I = single(rand(30 + floor(rand * 10), 30 + floor(rand * 10)) > .9); match(fid, 'vl_slic default', out(vl_slic(I, q, .001), vfref('slic', I, [q .001 floor(q * q / 36)]), 'uint32')); end
  case 'quickshift'
    I = rand(2 + floor(rand * 9), 2 + floor(rand * 9), pick(1, 1, 3)); s = pick(.5, 1, 2); md = rand < .4; x = pick(NaN, 1, 4); o = {}; if md, o = {{'Medoid'}}; end, opts = mix(o{:}); if isnan(x) && ~md, opts = {}; x2 = 3 * s; else if isnan(x), x = 3 * s; end, x2 = x; opts = [{x} opts]; end
    [m, g, e] = vfref('quickshift', I, [s x2 md]); k = 1 + mod(no, 3); o = {}; [o{1:k}] = vl_quickshift(I, s, opts{:}); r = {out(o{1}, m, 'double', 1)}; if k > 1, r{2} = out(o{2}, g, 'double'); end, if k > 2, r{3} = out(o{3}, e, 'double'); end, match(fid, 'vl_quickshift', r{:});
  case 'links'
    M = 1 + floor(rand * 6); N = 2 + floor(rand * 6); I = floor(rand(M, N, pick(1, 2)) * 4); s = pick(.7, 1, 2); x = pick(1, 2.5, 6); [m, g, e] = vl_quickshift(I, s, x); [jj, ii] = meshgrid(1:N, 1:M); at = [ii(:)'; jj(:)'; reshape(I, M * N, [])'];
    put(fid, 'Links', 'map', list(m(:)'), 'gap', num(g), 'density', num(e), 'at', cols(at), 'max', num(x)(2:end-1));
  case 'refuse'
    X = rand(2, 9); U = uint8(X * 255); F = vl_kdtreebuild(X); T = vl_hikmeans(U, 2, 4); C = int32(ones(2, 3)); G = @(f, v) setfield(F, f, v); H = @(f, v) setfield(F, 'trees', setfield(F.trees, 'nodes', setfield(F.trees.nodes, f, v))); nd = F.trees.nodes; nn = numel(nd.lowerChild);
    at = @(v, k, w) subsasgn(v, struct('type', '()', 'subs', {{k}}), w); I = rand(9, 9, 'single'); in = find(nd.lowerChild > 0)(1); lf = find(nd.lowerChild < 0)(1);
    c = {{'vl_kmeans no argument', @vl_kmeans}, {'vl_kmeans more centers than data', @vl_kmeans, X, 10}, {'vl_kmeans K 0', @vl_kmeans, X, 0}, {'vl_kmeans of class uint8', @vl_kmeans, U, 2}, {'vl_kmeans unknown distance', @vl_kmeans, X, 2, 'Distance', 'l3'}, {'vl_kmeans NumRepetitions 0', @vl_kmeans, X, 2, 'NumRepetitions', 0}, {'vl_kmeans empty', @vl_kmeans, zeros(0, 5), 1}, {'vl_kmeans unknown option', @vl_kmeans, X, 2, 'Foo', 1}, {'vl_kmeans NumTrees 0', @vl_kmeans, X, 2, 'NumTrees', 0}, {'vl_kmeans sparse', @vl_kmeans, sparse(X > .5) * 1, 2}, {'vl_kmeans unknown algorithm', @vl_kmeans, X, 2, 'Algorithm', 'foo'}, ...
      {'vl_gmm K 0', @vl_gmm, X, 0}, {'vl_gmm more clusters than data', @vl_gmm, X, 10}, {'vl_gmm means only', @vl_gmm, X, 2, 'InitMeans', ones(2, 2)}, {'vl_gmm means of another size', @vl_gmm, X, 2, 'InitMeans', ones(2, 3), 'InitPriors', [.5 .5], 'InitCovariances', ones(2, 2)}, {'vl_gmm means of another class', @vl_gmm, X, 2, 'InitMeans', ones(2, 2, 'single'), 'InitPriors', [.5 .5], 'InitCovariances', ones(2, 2)}, {'vl_gmm bound of another size', @vl_gmm, X, 2, 'CovarianceBound', [1 1 1]}, {'vl_gmm NaN', @vl_gmm, [NaN 1 2; 1 2 3], 1}, {'vl_gmm Inf', @vl_gmm, [Inf 1 2; 1 2 3], 1}, {'vl_gmm unknown initialization', @vl_gmm, X, 2, 'Initialization', 'foo'}, {'vl_gmm sparse', @vl_gmm, sparse(X > .5) * 1, 2}, {'vl_gmm custom rand', @vl_gmm, X, 1, 'Initialization', 'rand', 'InitMeans', ones(2, 1), 'InitPriors', 1, 'InitCovariances', ones(2, 1)}, {'vl_gmm custom without parameters', @vl_gmm, X, 2, 'Initialization', 'custom'}, ...
      {'vl_fisher three arguments', @vl_fisher, X, ones(2, 2), ones(2, 2)}, {'vl_fisher means of another size', @vl_fisher, X, ones(3, 2), ones(3, 2), [1 1]}, {'vl_fisher covariances of another size', @vl_fisher, X, ones(2, 2), ones(2, 3), [1 1]}, {'vl_fisher priors of another size', @vl_fisher, X, ones(2, 2), ones(2, 2), [1 1 1]}, {'vl_fisher classes', @vl_fisher, X, single(ones(2, 2)), ones(2, 2), [1 1]}, {'vl_fisher unknown option', @vl_fisher, X, ones(2, 2), ones(2, 2), [1 1], 'Foo'}, {'vl_fisher uint8', @vl_fisher, U, ones(2, 2, 'uint8'), ones(2, 2, 'uint8'), uint8([1 1])}, ...
      {'vl_vlad two arguments', @vl_vlad, X, ones(2, 2)}, {'vl_vlad no argument', @vl_vlad}, {'vl_vlad means of another size', @vl_vlad, X, ones(3, 2), ones(2, 9)}, {'vl_vlad assignments of other clusters', @vl_vlad, X, ones(2, 2), ones(3, 9)}, {'vl_vlad assignments of other data', @vl_vlad, X, ones(2, 2), ones(2, 8)}, {'vl_vlad unknown option', @vl_vlad, X, ones(2, 2), ones(2, 9), 'Foo'}, {'vl_vlad classes', @vl_vlad, X, ones(2, 2), ones(2, 9, 'single')}, ...
      {'vl_kdtreebuild uint8', @vl_kdtreebuild, U}, {'vl_kdtreebuild two outputs', @() nout2(@vl_kdtreebuild, X)}, {'vl_kdtreebuild empty', @vl_kdtreebuild, zeros(2, 0)}, {'vl_kdtreebuild complex', @vl_kdtreebuild, complex(X, X)}, {'vl_kdtreebuild NumTrees 0', @vl_kdtreebuild, X, 'NumTrees', 0}, {'vl_kdtreebuild NumTrees -1', @vl_kdtreebuild, X, 'NumTrees', -1}, {'vl_kdtreebuild unknown distance', @vl_kdtreebuild, X, 'Distance', 'l3'}, {'vl_kdtreebuild method not a string', @vl_kdtreebuild, X, 'ThresholdMethod', 3}, ...
      {'vl_kdtreequery no argument', @vl_kdtreequery}, {'vl_kdtreequery two arguments', @vl_kdtreequery, F, X}, {'vl_kdtreequery of a number', @vl_kdtreequery, 3, X, X}, {'vl_kdtreequery other data', @vl_kdtreequery, F, X(:, 1:8), X}, {'vl_kdtreequery other rows', @vl_kdtreequery, F, X, ones(3, 2)}, {'vl_kdtreequery other class', @vl_kdtreequery, F, X, single(X)}, {'vl_kdtreequery NumNeighbors 0', @vl_kdtreequery, F, X, X, 'NumNeighbors', 0}, {'vl_kdtreequery NumNeighbors -1', @vl_kdtreequery, F, X, X, 'NumNeighbors', -1}, {'vl_kdtreequery MaxNumComparisons -1', @vl_kdtreequery, F, X, X, 'MaxNumComparisons', -1}, ...
      {'vl_kdtreequery without distance', @vl_kdtreequery, rmfield(F, 'distance'), X, X}, {'vl_kdtreequery without trees', @vl_kdtreequery, rmfield(F, 'trees'), X, X}, {'vl_kdtreequery without nodes', @vl_kdtreequery, G('trees', rmfield(F.trees, 'nodes')), X, X}, {'vl_kdtreequery without dataIndex', @vl_kdtreequery, G('trees', rmfield(F.trees, 'dataIndex')), X, X}, {'vl_kdtreequery without lowerChild', @vl_kdtreequery, G('trees', setfield(F.trees, 'nodes', rmfield(nd, 'lowerChild'))), X, X}, {'vl_kdtreequery without lowerBound', @vl_kdtreequery, G('trees', setfield(F.trees, 'nodes', rmfield(nd, 'lowerBound'))), X, X}, {'vl_kdtreequery without upperBound', @vl_kdtreequery, G('trees', setfield(F.trees, 'nodes', rmfield(nd, 'upperBound'))), X, X}, ...
      {'vl_kdtreequery loop', @vl_kdtreequery, H('lowerChild', at(nd.lowerChild, in, 1)), X, X}, {'vl_kdtreequery child 0', @vl_kdtreequery, H('lowerChild', at(nd.lowerChild, in, 0)), X, X}, {'vl_kdtreequery upper child 0', @vl_kdtreequery, H('upperChild', at(nd.upperChild, in, 0)), X, X}, {'vl_kdtreequery child out of bounds', @vl_kdtreequery, H('upperChild', at(nd.upperChild, in, nn + 1)), X, X}, {'vl_kdtreequery leaf out of bounds', @vl_kdtreequery, H('lowerChild', at(nd.lowerChild, lf, -50)), X, X}, {'vl_kdtreequery dimension 0', @vl_kdtreequery, H('splitDimension', at(nd.splitDimension, in, 0)), X, X}, {'vl_kdtreequery dimension out of bounds', @vl_kdtreequery, H('splitDimension', at(nd.splitDimension, in, 3)), X, X}, {'vl_kdtreequery nodes of other sizes', @vl_kdtreequery, H('splitThreshold', nd.splitThreshold(1:end-1)), X, X}, {'vl_kdtreequery dataIndex 0', @vl_kdtreequery, G('trees', setfield(F.trees, 'dataIndex', at(F.trees.dataIndex, 2, 0))), X, X}, {'vl_kdtreequery dataIndex out of bounds', @vl_kdtreequery, G('trees', setfield(F.trees, 'dataIndex', at(F.trees.dataIndex, 2, 10))), X, X}, ...
      {'vl_ikmeans of class double', @vl_ikmeans, X, 2}, {'vl_ikmeans K 0', @vl_ikmeans, U, 0}, {'vl_ikmeans more centers than data', @vl_ikmeans, U, 10}, {'vl_ikmeans MaxIters 0', @vl_ikmeans, U, 2, 'MaxIters', 0}, {'vl_ikmeans unknown method', @vl_ikmeans, U, 2, 'Method', 'foo'}, {'vl_ikmeanspush centers of class double', @vl_ikmeanspush, U, double(C)}, {'vl_ikmeanspush other rows', @vl_ikmeanspush, U, int32(ones(3, 3))}, {'vl_ikmeanspush two outputs', @() nout2(@vl_ikmeanspush, U, C)}, ...
      {'vl_hikmeans K 0', @vl_hikmeans, U, 0, 4}, {'vl_hikmeans K 1', @vl_hikmeans, U, 1, 4}, {'vl_hikmeans K -2', @vl_hikmeans, U, -2, 4}, {'vl_hikmeans of class double', @vl_hikmeans, X, 2, 4}, {'vl_hikmeans more centers than data', @vl_hikmeans, U, 10, 10}, {'vl_hikmeans no leaves', @vl_hikmeans, U, 2, 0}, {'vl_hikmeans unknown method', @vl_hikmeans, U, 2, 4, 'Method', 'foo'}, {'vl_hikmeanspush other rows', @vl_hikmeanspush, T, U(1, :)}, {'vl_hikmeanspush of a number', @vl_hikmeanspush, 3, U}, {'vl_hikmeanspush deeper than the tree', @vl_hikmeanspush, setfield(T, 'depth', 3), U}, {'vl_hikmeanspush less deep than the tree', @vl_hikmeanspush, setfield(T, 'depth', 1), U}, {'vl_hikmeanspush without centers', @vl_hikmeanspush, rmfield(T, 'centers'), U}, {'vl_hikmeanspush of class double', @vl_hikmeanspush, T, X}, {'vl_hikmeanspush fewer branches', @vl_hikmeanspush, setfield(T, 'sub', T.sub(1)), U}, {'vl_hikmeanspush other rows below', @vl_hikmeanspush, setfield(T, 'sub', setfield(T.sub, {1}, 'centers', int32(ones(1, 2)))), U}, ...
      {'vl_slic of class double', @vl_slic, double(I), 3, 1}, {'vl_slic region 0', @vl_slic, I, 0, 1}, {'vl_slic regularizer -1', @vl_slic, I, 3, -1}, {'vl_slic two arguments', @vl_slic, I, 3}, {'vl_slic MinRegionSize -1', @vl_slic, I, 3, 1, 'MinRegionSize', -1}, {'vl_slic four dimensions', @vl_slic, rand(4, 4, 2, 2, 'single'), 3, 1}, ...
      {'vl_quickshift one argument', @vl_quickshift, X}, {'vl_quickshift of class single', @vl_quickshift, I, 2}, {'vl_quickshift kernel size of class single', @vl_quickshift, X, single(2)}, {'vl_quickshift empty kernel size', @vl_quickshift, X, []}, {'vl_quickshift maximum distance of class single', @vl_quickshift, X, 2, single(3)}, {'vl_quickshift complex', @vl_quickshift, complex(X, X), 2}};
    for k = 1:numel(c), bad(fid, c{k}{1}, c{k}{2:end}); end
  end
  catch err
    put(fid, 'Error', 'in', quoted([kind ': ' regexprep(err.message, '[^ -!#-\[\]-~]', ' ')]));
  end
end
fclose(fid);
