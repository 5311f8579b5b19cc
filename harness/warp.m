1;
function s = num(v)
  s = {}; v = double(v(:)); for k = 1:numel(v), if isnan(v(k)), s{k} = 'nan'; elseif isinf(v(k)), s{k} = {'-inf', 'inf'}{1 + (v(k) > 0)}; else s{k} = sprintf('%.17g', v(k)); end, end
end
function r = bycol(X)
  r = {}; for k = 1:size(X, 2), r{k} = num(X(:, k)); end
end
function r = byrow(X)
  r = bycol(X');
end
function r = refused(f, varargin)
  r = false; try f(varargin{:}); catch, r = true; end
end
function put(fid, varargin)
  fprintf(fid, '%s\n', jsonencode(struct(varargin{:})));
end
function Y = controls(K)
  do
    k = randperm(25)(1:K) - 1; Y = [mod(k, 5); floor(k / 5)];
  until rank([ones(1, K); Y]) == 3
end
warning('off');
a = argv(); fid = fopen([a{1} '/warp.ndjson'], 'w'); seed = str2num(a{2}); rand('state', seed);
n = 520; if strcmp(a{3}, 'thorough'), n = 6000; end
for t = 1:n
  kind = floor(rand * 12);
  if kind < 5
    M = floor(rand * 6); N = floor(rand * 6); if rand < .8, M = max(M, 1); N = max(N, 1); end
    K = 1; if rand < .25, K = 2 + floor(rand * 2); end
    I = floor(rand(M, N, K) * 33) - 16; if rand < .3, I = rand(M, N, K); end
    grid = rand < .6; xr = 1:N; yr = 1:M; if grid, xr = cumsum(ceil(rand(1, N) * 4)) / 2 - 3; yr = cumsum(ceil(rand(1, M) * 4)) / 4 - 1; end
    P = floor(rand * 5); Q = 1 + floor(rand * 5); X = zeros(P, Q); Y = zeros(P, Q);
    lo = 0; hi = N + 1; if grid && N, lo = xr(1) - .5; hi = xr(end) + .5; end, X(:) = lo + floor(rand(P, Q) * (8 * (hi - lo) + 1)) / 8;
    lo = 0; hi = M + 1; if grid && M, lo = yr(1) - .5; hi = yr(end) + .5; end, Y(:) = lo + floor(rand(P, Q) * (8 * (hi - lo) + 1)) / 8;
    if N && M && rand < .6, s = rand(P, Q) < .5; X(s) = xr(ceil(rand(sum(s(:)), 1) * N)); s = rand(P, Q) < .5; Y(s) = yr(ceil(rand(sum(s(:)), 1) * M)); end
    if rand < .2, X += (rand(P, Q) - .5) / 4; Y += (rand(P, Q) - .5) / 4; end
    if rand < .1, X(rand(P, Q) < .2) = NaN; Y(rand(P, Q) < .2) = NaN; X(rand(P, Q) < .1) = Inf; end
    args = {I, X, Y}; if grid || rand < .3, if rand < .3, xr = xr'; end, args = {xr, yr, I, X, Y}; end
    d = rand < .6; jx = []; jy = [];
    if d, [J, JX, JY] = vl_imwbackward(args{:}); jx = JX; jy = JY; else J = vl_imwbackward(args{:}); end
    if d && K == 1 && rand < .2, [J, JX] = vl_imwbackwardmx(xr, yr, I, X, Y); jx = JX; end
    img = {}; for k = 1:K, img{k} = bycol(I(:, :, k)); end
    assert(isequal([size(J, 1) size(J, 2) size(J, 3)], [P Q K]));
    put(fid, 'e', 'Warp', 'xr', {num(xr)}, 'yr', {num(yr)}, 'img', {img}, 'x', {num(X)}, 'y', {num(Y)}, 'd', d, 'j', {num(J)}, 'jx', {num(jx)}, 'jy', {num(jy)});
  elseif kind < 7
    D = 2 + floor(rand * 3); if rand < .1, D = 1; end, m = 1 + floor(rand * 5); A = floor(rand(D) * 17) - 8; if rand < .5, A = randn(D); end, T = floor(rand(D, 1) * 9) - 4; if rand < .3, T = randn(D, 1); end
    X = floor(rand(D, m) * 21) - 10; 
    if D > 1 && rand < .5
      c = {}; o = cell(1, D); for k = 1:D, c{k} = reshape(X(k, :), 1, m); if rand < 2 && t - 2 * floor(t / 2) == 0, c{k} = c{k}'; end, end
      [o{:}] = vl_waffine(A, T, c{:}); O = zeros(D, m); for k = 1:D, assert(isequal(size(o{k}), size(c{k}))); O(k, :) = o{k}(:)'; end
    else
      O = vl_waffine(A, T, X);
    end
    put(fid, 'e', 'Affine', 'a', {byrow(A)}, 't', {num(T)}, 'pts', {bycol(X)}, 'out', {bycol(O)});
    x = floor(rand(2, m) * 9); y = randn(2, m); [dx, dy] = vl_dwaffine(x, y);
    put(fid, 'e', 'Daffine', 'x', {num(x)}, 'y', {num(y)}, 'dx', {byrow(dx)}, 'dy', {byrow(dy)});
  elseif kind < 8
    M = 1 + floor(rand * 4); N = 1 + floor(rand * 4); X = floor(rand(2, M) * 5); Y = floor(rand(2, N) * 5); if rand < .5, X += rand(2, M); Y += rand(2, N); Y(:, 1) = X(:, 1); end
    d = rand < .6; du = []; dims = []; if d, [u, du] = vl_tpsu(X, Y); dims = [size(du, 1) size(du, 2) size(du, 3)]; elseif rand < .5, u = vl_tpsu(X, Y); else u = vl_tpsumx(X, Y); end
    put(fid, 'e', 'Radial', 'x', {bycol(X)}, 'y', {bycol(Y)}, 'd', d, 'u', {num(u)}, 'du', {num(du)}, 'dims', {num2cell(dims)});
  else
    Y = controls(3 + floor(rand * 5)); if rand < .4, Y += (rand(size(Y)) - .5) / 2; end
    K = size(Y, 2); tol = '1e-7'; M = 1 + floor(rand * 3); N = 1 + floor(rand * 3); x1 = rand(M, N) * 5 - .5; x2 = rand(M, N) * 5 - .5; if rand < .3, x1 = round(x1); x2 = round(x2); end
    onto = rand < .3; if onto, x1 = Y(1, :); x2 = Y(2, :); M = 1; N = K; end
    hasS = rand < .5; S = []; if hasS, [phi, S] = vl_tps(x1, x2, Y); else phi = vl_tps(x1, x2, Y); end
    put(fid, 'e', 'Tps', 'tol', tol, 'y', {bycol(Y)}, 'x', {bycol([x1(:)'; x2(:)'])}, 'm', M, 'n', N, 'dims', {num2cell([size(phi, 1) size(phi, 2) size(phi, 3)])}, 'phi', {bycol(reshape(phi, K + 3, M * N))}, 'hasS', hasS, 's', {bycol(S)});
    Yp = Y + (rand(2, K) - .5) * .3;
    [w1, w2] = vl_wtps(phi, Yp); assert(isequal(size(w1), [M N], size(w2)));
    put(fid, 'e', 'Wtps', 'phi', {bycol(reshape(phi, K + 3, M * N))}, 'yp', {bycol(Yp)}, 'out', {bycol([w1(:)'; w2(:)'])});
    if onto, put(fid, 'e', 'Interp', 'tol', tol, 'y', {bycol(Y)}, 'yp', {bycol(Yp)}, 'out', {bycol([w1(:)'; w2(:)'])}); end
    r2 = (Y(1, :)' - Y(1, :)).^2 + (Y(2, :)' - Y(2, :)).^2; Uy = r2 .* log(r2 + (r2 == 0)); H = [ones(K, 1) Y']; coef = [Uy H; H' zeros(3)] \ [Yp'; zeros(3, 2)];
    M = 1 + floor(rand * 2); N = 1 + floor(rand * 2); c = rand(K, M * N); c = c ./ repmat(sum(c), K, 1); p = Yp * c; q1 = reshape(p(1, :), M, N); q2 = reshape(p(2, :), M, N);
    if rand < .4 && K > 3, q1 = Yp(1, :); q2 = Yp(2, :); end
    [v1, v2] = vl_witps(q1, q2, Y, Yp); assert(isequal(size(v1), size(q1), size(v2)));
    put(fid, 'e', 'Inverse', 'tol', '1e-8', 'y', {bycol(Y)}, 'yp', {bycol(Yp)}, 'coef', {byrow(coef)}, 'xp', {bycol([q1(:)'; q2(:)'])}, 'out', {bycol([v1(:)'; v2(:)'])});
  end
end
bad = {{@vl_imwbackward, single(magic(3)), 1, 1}, {@vl_imwbackward, magic(3), single(1), 1}, {@vl_imwbackward, magic(3), 1, single(1)}, {@vl_imwbackward, magic(3), 1, [1 2]}, {@vl_imwbackward, 1:2, 1:3, magic(3), 1, 1}, {@vl_imwbackward, 1:3, 1:2, magic(3), 1, 1}, ...
  {@vl_imwbackward, magic(3), 1}, {@vl_imwbackward, 1:3, 1:3, magic(3), 1, 1, 1}, {@vl_imwbackward, single(1:3), 1:3, magic(3), 1, 1}, {@vl_imwbackward, sparse(magic(3)), 1, 1}, {@vl_tpsumx, single([1; 2]), [1; 2]}, {@vl_tpsumx, [1; 2], int8([1; 2])}, {@vl_tpsumx, 1, [1; 2]}, {@vl_tpsumx, [1; 2], [1 2 3]}, {@vl_tpsumx, [1; 2]}};
for k = 1:numel(bad), put(fid, 'e', 'Refuse', 'refused', refused(bad{k}{:}), 'k', k); end
fclose(fid);
