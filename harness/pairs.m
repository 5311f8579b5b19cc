1;
function s = num(v)
  s = {}; v = double(v(:)); for k = 1:numel(v), if isnan(v(k)), s{k} = 'nan'; elseif isinf(v(k)), s{k} = 'inf'; else s{k} = sprintf('%.17g', v(k)); end, end
end
function r = ints(v)
  r = num2cell(double(v(:)'));
end
function r = cols(X, whole)
  r = {}; for k = 1:size(X, 2), if whole, r{k} = ints(X(:, k)); else r{k} = num(X(:, k)); end, end
end
function r = refused(f, varargin)
  r = false; try f(varargin{:}); catch, r = true; end
end
a = argv(); fid = fopen([a{1} '/pairs.ndjson'], 'w'); seed = str2num(a{2}); rand('state', seed);
n = 420; if strcmp(a{3}, 'thorough'), n = 5000; end
classes = {'uint8', 'int8', 'uint16', 'int16', 'uint32', 'int32', 'single', 'double'};
metrics = {'l2', 'l1', 'l0', 'linf', 'chi2', 'hell', 'kl2', 'kl1', 'kchi2', 'khell', 'min'};
for t = 1:n
  whole = true; L = floor(rand * 6); if rand < .1, L = 5 + floor(rand * 30); end
  n1 = floor(rand * 5); n2 = floor(rand * 5); self = rand < .3;
  kind = floor(rand * 10);
  if kind < 5
    c = classes{1 + floor(rand * 8)}; m = metrics{1 + floor(rand * 11)};
    top = {4, 100, 127, 255, 1000}{1 + floor(rand * 5)}; if L > 6, top = min(top, 255); end
    X = floor(rand(L, n1) * (top + 1)); Y = floor(rand(L, n2) * (top + 1));
    if isempty(strfind(c, 'u')) && isempty(strfind(m, 'hell')) && isempty(strfind(m, 'chi')) || strcmp(c, 'double') && any(strcmp(m, {'l1', 'l2', 'kl2', 'l0', 'linf', 'kl1'})), X -= floor(rand(L, n1) * top); Y -= floor(rand(L, n2) * top); end
    X(rand(L, n1) < .2) = 0; Y(rand(L, n2) < .3) = 0;
    whole = ~any(strcmp(c, {'single', 'double'}));
    if ~whole, X /= 8; Y /= 8; end
    X = feval(c, X); Y = feval(c, Y); f = @vl_alldist2;
    if strcmp(c, 'double') && rand < .6, X = sparse(X); Y = sparse(Y); end
  elseif kind < 7
    c = classes{7 + (rand < .5)}; m = {'l2', 'l1', 'chi2', 'hell', 'js', 'kl2', 'kl1', 'kchi2', 'khell', 'kjs'}{1 + floor(rand * 10)};
    X = rand(L, n1); Y = rand(L, n2); X(rand(L, n1) < .2) = 0; Y(rand(L, n2) < .2) = 0;
    X = feval(c, X); Y = feval(c, Y); whole = false; f = @vl_alldist;
  else
    c = {'double', 'single', 'int8', 'uint8'}{1 + floor(rand * 4)}; n1 += floor(rand * 4); n2 += floor(rand * 4); top = {3, 20, 255}{1 + floor(rand * 3)};
    X = floor(rand(L, n1) * (top + 1)); Y = floor(rand(L, n2) * (top + 1)); if strcmp(c, 'int8'), X -= 128; Y -= 128; end
    for k = 1:min(n1, n2), if rand < .5, Y(:, k) = X(:, k) + floor(rand(L, 1) * 2); end, end
    X = feval(c, X); Y = feval(c, Y); th = {1.5, 1, 2, .5, 4}{1 + floor(rand * 5)}; args = {}; if th ~= 1.5 || rand < .5, args = {th}; end
    [M, D] = vl_ubcmatch(X, Y, args{:}); if rand < .2, M = vl_ubcmatch(X, Y, args{:}); end
    fprintf(fid, '%s\n', jsonencode(struct('e', 'Match', 'x', {cols(X, false)}, 'y', {cols(Y, false)}, 'thresh', sprintf('%.17g', th), 'm', {num(M)}, 'scores', {num(D)})));
    continue;
  end
  if self, Y = X; args = {X}; else args = {X, Y}; end
  if ~strcmp(m, 'l2') || rand < .5, name = m; if rand < .2, name = upper(m); end, args = [args {name}]; end
  D = f(args{:});
  fprintf(fid, '%s\n', jsonencode(struct('e', 'Dist', 'class', c, 'metric', m, 'sparse', issparse(X), 'self', self, 'x', {cols(full(X), whole)}, 'y', {cols(full(Y), whole)}, 'size', size(D), 'outclass', class(D), 'd', {num(D)})));
end
bad = {{@vl_alldist, 'a'}, {@vl_alldist, int8(1)}, {@vl_alldist, 1, single(1)}, {@vl_alldist, [1; 2], 1}, {@vl_alldist, 1, 1, 'other'}, {@vl_alldist}, {@vl_alldist, 1, 'linf'}, {@vl_alldist, 1, 1, 'L0'}, ...
  {@vl_alldist2, int64(1)}, {@vl_alldist2, 1, single(1)}, {@vl_alldist2, [1; 2], 1}, {@vl_alldist2, 1, 1, 'other'}, {@vl_alldist2}, {@vl_alldist2, sparse(1), 1}, {@vl_alldist2, 1, sparse(1)}, {@vl_alldist2, {}}, ...
  {@vl_ubcmatch, 1}, {@vl_ubcmatch, 1, single(1)}, {@vl_ubcmatch, [1; 2], 1}, {@vl_ubcmatch, int16(1), int16(1)}, {@vl_ubcmatch, 1, 1, [1 2]}, {@vl_ubcmatch, 1, 1, 1, 1}};
for k = 1:numel(bad)
  fprintf(fid, '%s\n', jsonencode(struct('e', 'Refuse', 'refused', refused(bad{k}{:}), 'k', k)));
end
fclose(fid);
