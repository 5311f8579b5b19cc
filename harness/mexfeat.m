1;
function r = num(v)
  r = ['[' lower(strjoin(cellstr(num2str0(v)), ',')) ']'];
end
function c = num2str0(v)
  v = double(v(:)); if isempty(v), c = ''; else c = sprintf('"%.17g",', v)(1:end-1); end
end
function r = nums(X)
  r = '['; for k = 1:size(X, 2), if k > 1, r = [r ',']; end, r = [r num(X(:, k))]; end, r = [r ']'];
end
function r = list(v)
  v = double(v(:)); v(~isfinite(v) | v ~= round(v) | abs(v) > 2147483647) = -1999999999; r = ['[' sprintf('%d,', v)(1:end-1) ']']; % what is no integer is never expected
end
function put(fid, e, varargin)
  s = ['{"e":"' e '"'];
  for k = 1:2:numel(varargin)
    v = varargin{k + 1}; if islogical(v), v = {'false', 'true'}{1 + v}; elseif isnumeric(v), v = list(v); if numel(varargin{k + 1}) == 1, v = v(2:end-1); end, end
    s = [s ',"' varargin{k} '":' v];
  end
  fprintf(fid, '%s}\n', s);
end
function r = quoted(s)
  r = ['"' s '"'];
end
function r = refused(f, varargin)
  r = false; try f(varargin{:}); catch, r = true; end
end
function nout2(f, varargin)
  [a, b] = f(varargin{:});
end
function bad(fid, name, f, varargin)
  put(fid, 'Refuse', 'what', quoted(name), 'refused', refused(f, varargin{:}));
end
% the options in some order, their names in some case
function o = mix(varargin)
  o = {}; p = randperm(numel(varargin));
  for k = p, v = varargin{k}; n = v{1}; switch floor(rand * 3), case 0, n = lower(n); case 1, n = upper(n); end, o = [o {n} v(2:end)]; end
end
function I = picture(M, N)
  I = rand(M, N); for k = 1:1 + floor(rand * 3), I = conv2(I([1 1:end end], [1 1:end end]), ones(3) / 9, 'valid'); end
  I = I - min(I(:)); I = single(I / max(max(I(:)), 1e-6) * [1 1 1 255](ceil(rand * 4)));
end
function r = pick(varargin)
  r = varargin{ceil(rand * numel(varargin))};
end
warning('off');
a = argv(); seed = str2num(a{2}); rand('state', seed); randn('state', seed); part = 0; fid = -1;
n = 330; if strcmp(a{3}, 'thorough'), n = 2400; end
nan_ = NaN; only = getenv('VF_KIND'); kinds = {'sift', 'raw', 'dsift', 'covdet', 'liop', 'hog', 'hogfield', 'perm', 'render', 'lbp', 'refuse'}; h = 0;
for t = 1:n
  if mod(t - 1, 20) == 0, if fid >= 0, fclose(fid); end, part += 1; fid = fopen(sprintf('%s/feat-%03d.ndjson', a{1}, part), 'w'); end
  kind = kinds{1 + mod(t - 1, numel(kinds))}; if ~isempty(only), kind = only; end
  try
  switch kind
  case 'sift'
    I = picture(12 + floor(rand * 24), 12 + floor(rand * 24)); I = I / max(I(:)) * 255; S = pick(NaN, 1, 2, 4); O = pick(NaN, 1, 2); om = pick(NaN, -1, 0, 1);
    v = [pick(NaN, .5, 2) pick(NaN, 3, 10) pick(NaN, .1) pick(NaN, 2, 4) pick(NaN, 1, 3)]; nm = {'PeakThresh', 'EdgeThresh', 'NormThresh', 'Magnif', 'WindowSize'};
    opts = {}; if ~isnan(S), opts{end + 1} = {'Levels', S}; else S = 3; end, if ~isnan(O), opts{end + 1} = {'Octaves', O}; else O = -1; end, if ~isnan(om), opts{end + 1} = {'FirstOctave', om}; else om = 0; end
    for k = 1:5, if ~isnan(v(k)), opts{end + 1} = {nm{k}, v(k)}; end, end
    fl = rand < .4; if fl, opts{end + 1} = {'FloatDescriptors'}; end
    user = rand < .5; orient = rand < .4; U = []; R = [];
    if user
      m = floor(rand * 7); U = [1 + rand(1, m) * (size(I, 2) - 1); 1 + rand(1, m) * (size(I, 1) - 1); .6 + rand(1, m) * 6; rand(1, m) * 6]; if rand < .3 && m, U(3, :) = 1.5; elseif rand < .4 && m > 1, U = sortrows(U', 3)'; j = ceil(rand * m); U(3, j:m) = U(3, j:m) + 3; k = ceil(rand * m); U = [U(:, [1:k-1, k+1:m]), U(:, k)]; end
      opts{end + 1} = {'Frames', U}; R = sortrows(U', 3)'; if m, R = [R(2, :) - 1; R(1, :) - 1; R(3, :); pi / 2 - R(4, :)]; end
    end
    if orient, opts{end + 1} = {'Orientations'}; end
    opts = mix(opts{:}); if user && ~isempty(R) || ~user, ref = vfref('sift', I, [O S om v], R, double(orient)); else ref = zeros(132, 0); end
    two = rand < .8; D = zeros(128, 0, 'uint8'); if two, [f, D] = vl_sift(I, opts{:}); else f = vl_sift(I, opts{:}); end
    if size(ref, 2) > 25, J = sort(randperm(size(ref, 2))(1:25)); else J = 1:size(ref, 2); end, ok = size(f, 2) == size(ref, 2) && size(f, 1) == 4 && (~two || isequal(size(D), [128 size(f, 2)]));
    if ~ok, J = []; end, E = D; if two, E = D(:, J); end
    put(fid, 'Sift', 'sized', ok, 'two', two, 'float', fl, 'user', user && ~orient, 'ref', nums(ref(:, J)), 'f', nums(f(:, J)), 'd', nums(E), 'fc', quoted(class(f)), 'dc', quoted(class(D)));
  case 'raw'
    M = 4 + floor(rand * 14); N = 4 + floor(rand * 14); G = single(cat(1, rand(1, M, N), 2 * pi * rand(1, M, N))); m = floor(rand * 6);
    U = [1 + rand(1, m) * (N - 1); 1 + rand(1, m) * (M - 1); .4 + rand(1, m) * 3; rand(1, m) * 6]; mg = pick(NaN, 1, 2.5); nt = pick(NaN, .05, .2); fl = rand < .5;
    opts = {}; if ~isnan(mg), opts{end + 1} = {'Magnif', mg}; end, if ~isnan(nt), opts{end + 1} = {'NormThresh', nt}; end, if fl, opts{end + 1} = {'FloatDescriptors'}; end, opts = mix(opts{:});
    L = G; L(2, :) = single(pi / 2 - double(G(2, :))); R = zeros(128, 0); if m, R = vfref('raw', L, [U(2, :) - 1; U(1, :) - 1; U(3, :); pi / 2 - U(4, :)], [mg nt]); end
    D = vl_siftdescriptor(G, U, opts{:}); ok = isequal(size(D), [128 m]); if ~ok, R = []; D = D([]); end
    put(fid, 'Raw', 'sized', ok, 'float', fl, 'ref', nums(R), 'd', nums(D), 'dc', quoted(class(D)));
  case 'dsift'
    I = picture(12 + floor(rand * 12), 12 + floor(rand * 12)); opts = {}; st = pick(NaN, 1, 4, [3 5], [7 2]); sz = pick(NaN, 1, 2, [2 3], [3 1]); ge = pick(NaN, [4 4 8], [2 3 4], [3 1 8], [1 2 12]); w = pick(NaN, .8, 2); fl = rand < .5; fast = rand < .3; norm = rand < .4;
    bo = NaN; if rand < .4, bo = [ceil(rand * 6) - 2, ceil(rand * 6) - 2, 6 + ceil(rand * 20), 6 + ceil(rand * 20)]; end
    if ~isnan(st), opts{end + 1} = {'Step', st}; else st = 1; end, if ~isnan(sz), opts{end + 1} = {'Size', sz}; else sz = 3; end, if ~isnan(ge), opts{end + 1} = {'Geometry', ge}; else ge = [4 4 8]; end
    if ~isnan(w), opts{end + 1} = {'WindowSize', w}; end, if fl, opts{end + 1} = {'FloatDescriptors'}; end, if fast, opts{end + 1} = {'Fast'}; end, if norm, opts{end + 1} = {'Norm'}; end, if ~isnan(bo), opts{end + 1} = {'Bounds', bo}; end
    if numel(st) == 1, st = [st st]; end, if numel(sz) == 1, sz = [sz sz]; end, opts = mix(opts{:}); lb = [NaN 0 0 0]; if ~isnan(bo), lb = [max(bo(2) - 1, 0) max(bo(1) - 1, 0) min(bo(4) - 1, size(I, 1) - 1) min(bo(3) - 1, size(I, 2) - 1)]; end
    [k, R] = vfref('dsift', I, [st(2) st(1) sz(2) sz(1) ge(2) ge(1) ge(3) fast w lb]);
    two = rand < .8; D = []; if two, [f, D] = vl_dsift(I, opts{:}); else f = vl_dsift(I, opts{:}); end
    J = 1:size(k, 2); if numel(J) > 6, J = sort(randperm(numel(J))(1:6)); J(end) = size(k, 2); end, ok = isequal(size(f), [2 + norm, size(k, 2)]) && (~two || isequal(size(D), size(R))); if ~ok, J = []; f = []; D = []; end, E = D; if two, E = D(:, J); end
    put(fid, 'Dsift', 'sized', ok, 'two', two, 'float', fl, 'norm', norm, 'nx', ge(1), 'ny', ge(2), 'nt', ge(3), 'k', nums(k(:, J)), 'ref', nums(R(:, J)), 'f', nums(f(:, J)), 'd', nums(E), 'fc', quoted(class(f)), 'dc', quoted(class(D)));
  case 'covdet'
    I = picture(20 + floor(rand * 20), 20 + floor(rand * 20)); I = I / max(I(:)); nm = {'DoG', 'Hessian', 'HessianLaplace', 'HarrisLaplace', 'MultiscaleHessian', 'MultiscaleHarris'}; me = ceil(rand * 6); opts = {{'Method', pick(nm{me}, lower(nm{me}))}}; if me == 1 && rand < .5, opts = {}; end
    dbl = rand < .5; if ~dbl || rand < .5, opts{end + 1} = {'DoubleImage', logical(dbl)}; end
    v = [pick(NaN, 2, 4) pick(NaN, 1, 2) pick(NaN, 1.2) pick(.0005, .002, .01) pick(NaN, 4, 20) pick(NaN, .001, .05) pick(NaN, 1, 2)]; vn = {'OctaveResolution', 'NumOctaves', 'BaseScale', 'PeakThreshold', 'EdgeThreshold', 'LaplacianPeakThreshold', 'MaxNumOrientations'};
    for k = 1:7, if ~isnan(v(k)), opts{end + 1} = {vn{k}, v(k)}; end, end
    aff = rand < .25; ori = rand < .35; if aff || rand < .3, opts{end + 1} = {'EstimateAffineShape', logical(aff)}; end, if ori || rand < .3, opts{end + 1} = {'EstimateOrientation', logical(ori)}; end
    U = []; fd = 0; L = []; user = rand < .45;
    if user
      m = floor(rand * 6); fd = 2 + floor(rand * 5); xy = [3 + rand(1, m) * (size(I, 2) - 6); 3 + rand(1, m) * (size(I, 1) - 6)]; s = .7 + 2 * rand(1, m); th = 6 * rand(1, m); A = randn(4, m); C = zeros(3, m);
      for k = 1:m, B = reshape(A(:, k), 2, 2) + eye(2); if rand < .1, B(:, 2) = B(:, 1); end, A(:, k) = B(:); B = B * B'; C(:, k) = B([1 2 4]) .* [1 1 1 + 1e-9]; end
      switch fd, case 2, U = xy; A = repmat([1; 0; 0; 1], 1, m); case 3, U = [xy; s]; A = [s; 0 * s; 0 * s; s]; case 4, U = [xy; s; th]; A = [s .* cos(th); s .* sin(th); -s .* sin(th); s .* cos(th)];
      case 5, U = [xy; C]; A(1, :) = sqrt(C(1, :)); A(2, :) = C(2, :) ./ A(1, :); A(3, :) = 0; A(4, :) = sqrt(max(C(3, :) - A(2, :) .^ 2, 0)); case 6, U = [xy; A]; end
      L = [xy(2, :) - 1; xy(1, :) - 1; A([4 3 2 1], :)]; opts{end + 1} = {'Frames', U};
    end
    ty = floor(rand * 4); tn = {'None', 'Patch', 'SIFT', 'LIOP'}; if ty ~= 2 || rand < .5, opts{end + 1} = {'Descriptor', tn{ty + 1}}; end
    q = [NaN 20 15 20; NaN 6 7.5 5; NaN 1.1 1 .8](:, ty + 1)'; if ty == 0, q = [5 5 1]; end
    if rand < .8, q(1) = pick(4, 5); opts{end + 1} = {'PatchResolution', q(1)}; elseif ty == 1, q(1) = 20; end
    pad = rand < .7; if rand < .5 || ty == 3 || ty == 0 && ~pad, q(2) = pick(3, 5.5); opts{end + 1} = {'PatchRelativeExtent', q(2)}; end, if ty ~= 2 || rand < .5, q(3) = pick(.5, 1.3); opts{end + 1} = {'PatchRelativeSmoothing', q(3)}; end
    lq = [pick(4, 6) pick(3, 4) pick(2, 3.5) pick(NaN, .1, -.05)]; if ty == 3, opts = [opts, {{'LiopNumSpatialBins', lq(1)}, {'LiopNumNeighbours', lq(2)}, {'LiopRadius', lq(3)}}]; if ~isnan(lq(4)), opts{end + 1} = {'LiopIntensityThreshold', lq(4)}; end, end
    mg = 2; if ~pad, mg = q(2); opts{end + 1} = {'AllowPaddedWarping', false}; end
    opts = mix(opts{:}); o3 = ceil(rand * 3); D = zeros(0, 0, 'single'); info = [];
    R = zeros(10, 0); RD = []; if ~user || ~isempty(U), [R, RD] = vfref('covdet', I, [me -double(dbl) v(1:3) v(4:7) aff ori mg], L, [ty q lq]); end
    switch o3, case 1, f = vl_covdet(I, opts{:}); case 2, [f, D] = vl_covdet(I, opts{:}); case 3, [f, D, info] = vl_covdet(I, opts{:}); end
    ok = isequal(size(f), [6 size(R, 2)]) && (o3 < 2 || ty == 0 && isempty(D) || isempty(R) && size(D, 2) == 0 || isequal(size(D), size(RD)));
    J = 1:size(R, 2); if numel(J) > 8, J = sort(randperm(numel(J))(1:8)); J(end) = size(R, 2); end, if ~ok, J = []; end
    E = []; RE = []; if o3 >= 2 && ty > 0 && ~isempty(J), E = D(:, J); RE = RD(:, J); end, if size(E, 1) > 250, K = sort(randperm(size(E, 1))(1:250)); E = E(K, :); RE = RE(K, :); end
    sc = zeros(4, 0); if o3 == 3, z = numel(info.peakScores); ok = ok && z == size(R, 2) && isequal(fieldnames(info), {'gss'; 'css'; 'peakScores'; 'edgeScores'; 'orientationScore'; 'laplacianScaleScore'}); if ok, sc = double([info.peakScores; info.edgeScores; info.orientationScore; info.laplacianScaleScore]); sc = sc(:, J);
      g = info.gss; ok = iscell(g.data) && numel(g.data) == g.lastOctave - g.firstOctave + 1 && g.firstOctave == -double(dbl) && isequal([size(g.data{1}, 1), size(g.data{1}, 2), size(g.data{1}, 3)], [size(I) * 2 ^ dbl, g.octaveLastSubdivision - g.octaveFirstSubdivision + 1]); end, end
    if ~ok, J = []; sc = []; E = []; RE = []; end, UJ = []; if user && ~aff && ~ori && ~isempty(J), UJ = U(:, J); end
    put(fid, 'Covdet', 'sized', ok, 'type', ty, 'user', ~isempty(UJ), 'given', user, 'u', nums(UJ), 'ref', nums(R(:, J)), 'f', nums(f(:, J)), 'rd', nums(RE), 'd', nums(E), 'scores', nums(sc), 'fc', quoted(class(f)), 'dc', quoted(class(D)));
  case 'liop'
    w = 2 * floor(rand * 8) + 13; K = pick(1, 1, 3); I = zeros(w, w, K, 'single'); for k = 1:K, I(:, :, k) = picture(w, w); end
    v = [pick(2, 3, 4) pick(1, 2, 6) pick(2, 3, 3.5, 1.5, .5, 5) pick(NaN, .1, -.3, 3)]; opts = {{'Radius', v(3)}}; if v(1) ~= 4 || rand < .5, opts{end + 1} = {'NumNeighbours', v(1)}; end, if v(2) ~= 6 || rand < .5, opts{end + 1} = {'NumSpatialBins', v(2)}; end, if ~isnan(v(4)), opts{end + 1} = {'IntensityThreshold', v(4)}; end
    opts = mix(opts{:}); R = vfref('liop', I, v); D = vl_liop(I, opts{:}); ok = isequal(size(D), size(R)); if ~ok, R = []; D = []; end
    put(fid, 'Same', 'what', quoted('vl_liop'), 'sized', ok, 'ref', num(R), 'd', num(D), 'tol', quoted('1e-6'), 'dc', quoted(class(D)), 'wc', quoted('single'));
  case {'hog', 'hogfield'}
    fld = strcmp(kind, 'hogfield'); cs = 2 + floor(rand * 6); M = cs + ceil(rand * 20); N = cs + ceil(rand * 20); K = pick(1, 1, 3); if fld, K = 2; end, I = zeros(M, N, K, 'single'); for k = 1:K, I(:, :, k) = picture(M, N); end, in = 0;
    if fld, in = pick(1, 2); I(:, :, 2) = single(rand(M, N) * 14 - 7); I(:, :, 1) /= max(max(I(:, :, 1))); end, no = pick(9, 9, 4, 3, 6); va = pick(1, 1, 0); bi = rand < .4; opts = {}; if no ~= 9 || rand < .3, opts{end + 1} = {'NumOrientations', no}; end, if va == 0 || rand < .3, opts{end + 1} = {'Variant', pick({'DalalTriggs', 'UoCTTI'}{1 + va}, lower({'DalalTriggs', 'UoCTTI'}{1 + va}))}; end, if bi, opts{end + 1} = {'BilinearOrientations'}; end
    if in, opts{end + 1} = {{'DirectedPolarField', 'UndirectedPolarField'}{in}}; end, opts = mix(opts{:});
    R = permute(vfref('hog', permute(I, [2 1 3]), [cs va no bi in N M K]), [2 1 3]); D = vl_hog(I, cs, opts{:}); ok = isequal(size(D), size(R)); if ~ok, R = []; D = []; elseif numel(D) > 1500, J = sort(randperm(numel(D))(1:1500)); D = D(J); R = R(J); end
    put(fid, 'Same', 'what', quoted('vl_hog'), 'sized', ok, 'ref', num(R), 'd', num(D), 'tol', quoted('2e-4'), 'dc', quoted(class(D)), 'wc', quoted('single'));
  case 'perm'
    no = pick(9, 9, 4, 3, 6); va = pick(1, 0); opts = {}; if no ~= 9 || rand < .3, opts{end + 1} = {'NumOrientations', no}; end, if va == 0 || rand < .3, opts{end + 1} = {'Variant', {'DalalTriggs', 'UoCTTI'}{1 + va}}; end, opts = mix(opts{:});
    [d, g, p] = vfref('hoginfo', [va no]); D = vl_hog(pick('permutation', 'Permutation'), opts{:});
    put(fid, 'Perm', 'ref', p, 'd', double(D(:)'), 'dc', quoted(class(D)));
  case 'render'
    no = pick(9, 9, 4, 3); va = pick(1, 0); opts = {}; if no ~= 9 || rand < .3, opts{end + 1} = {'NumOrientations', no}; end, if va == 0 || rand < .3, opts{end + 1} = {'Variant', {'DalalTriggs', 'UoCTTI'}{1 + va}}; end, opts = mix(opts{:});
    [d, g, p_] = vfref('hoginfo', [va no]); X = single(rand(ceil(rand * 3), ceil(rand * 3), d)); if rand < .3, X(rand(size(X)) < .5) = 0; end
    R = vfref('hogrender', permute(X, [2 1 3]), [va no])'; D = vl_hog(pick('render', 'RENDER'), X, opts{:}); ok = isequal(size(D), size(R)); if ~ok, R = []; D = []; else J = sort(randperm(numel(D))(1:min(end, 1500))); R = R(J); D = D(J); end
    put(fid, 'Same', 'what', quoted('vl_hog render'), 'sized', ok, 'ref', num(R), 'd', num(D), 'tol', quoted('1e-4'), 'dc', quoted(class(D)), 'wc', quoted('single'));
  case 'lbp'
    cs = 1 + floor(rand * 6); M = max(3, cs + floor(rand * 16)); N = max(3, cs + floor(rand * 16)); I = picture(M, N); if rand < .4, I = single(floor(I / max(I(:)) * 3)); end
    R = permute(vfref('lbp', I', cs), [2 1 3]); D = vl_lbp(I, cs); ok = isequal(size(D), size(R)); if ~ok, R = []; D = []; elseif numel(D) > 1500, J = sort(randperm(numel(D))(1:1500)); R = R(J); D = D(J); end
    put(fid, 'Same', 'what', quoted('vl_lbp'), 'sized', ok, 'ref', num(R), 'd', num(D), 'tol', quoted('1e-6'), 'dc', quoted(class(D)), 'wc', quoted('single'));
  case 'refuse'
    I = picture(17, 17); h += 1;
    c = {{'vl_sift of class double', @vl_sift, double(I)}, {'vl_sift Frames 3 x N', @vl_sift, I, 'Frames', ones(3, 2)}, {'vl_sift Frames of class single', @vl_sift, I, 'Frames', single([5 6; 7 8; 2 2; 0 0])}, {'vl_sift Levels 0', @vl_sift, I, 'Levels', 0}, {'vl_sift EdgeThresh .5', @vl_sift, I, 'EdgeThresh', .5}, {'vl_sift unknown option', @vl_sift, I, pick('Level', 'xx%s%s%s%n')}, {'vl_sift option without value', @vl_sift, I, 'Levels'}, {'vl_sift no argument', @vl_sift}, {'vl_sift PeakThresh -1', @vl_sift, I, 'PeakThresh', -1}, {'vl_sift option that is not a string', @vl_sift, I, 3}, ...
      {'vl_siftdescriptor FRAMES of class single', @vl_siftdescriptor, rand(2, 9, 9, 'single'), single([5 6; 7 8; 2 2; 0 0])}, {'vl_siftdescriptor GRAD of class double', @vl_siftdescriptor, rand(2, 9, 9), [5; 5; 2; 0]}, {'vl_siftdescriptor GRAD 3 x M x N', @vl_siftdescriptor, rand(3, 9, 9, 'single'), [5; 5; 2; 0]}, {'vl_siftdescriptor FRAMES 3 x N', @vl_siftdescriptor, rand(2, 9, 9, 'single'), [5; 5; 2]}, {'vl_siftdescriptor one argument', @vl_siftdescriptor, rand(2, 9, 9, 'single')}, {'vl_siftdescriptor Magnif -1', @vl_siftdescriptor, rand(2, 9, 9, 'single'), [5; 5; 2; 0], 'Magnif', -1}, ...
      {'vl_dsift of class double', @vl_dsift, double(I)}, {'vl_dsift Step 0', @vl_dsift, I, 'Step', 0}, {'vl_dsift Size of three', @vl_dsift, I, 'Size', [1 2 3]}, {'vl_dsift Bounds of three', @vl_dsift, I, 'Bounds', [1 2 3]}, {'vl_dsift Geometry zero', @vl_dsift, I, 'Geometry', [4 0 8]}, {'vl_dsift WindowSize -1', @vl_dsift, I, 'WindowSize', -1}, {'vl_dsift unknown', @vl_dsift, I, 'Foo', 1}, ...
      {'vl_covdet of class double', @vl_covdet, double(I)}, {'vl_covdet unknown method', @vl_covdet, I, 'Method', 'Foo'}, {'vl_covdet Frames 7 x N', @vl_covdet, I, 'Frames', ones(7, 2)}, {'vl_covdet Frames of class single', @vl_covdet, I, 'Frames', single([5; 5; 1])}, {'vl_covdet covariance not PSD', @vl_covdet, I, 'Frames', [5; 5; 1; 2; 1]}, {'vl_covdet negative variance', @vl_covdet, I, 'Frames', [5; 5; -1; 0; 1]}, {'vl_covdet MaxNumOrientations -1', @vl_covdet, I, 'MaxNumOrientations', -1}, {'vl_covdet NumOctaves -1', @vl_covdet, I, 'NumOctaves', -1}, {'vl_covdet NumOctaves 0', @vl_covdet, I, 'NumOctaves', 0}, {'vl_covdet EdgeThreshold .5', @vl_covdet, I, 'EdgeThreshold', .5}, {'vl_covdet DoubleImage 1', @vl_covdet, I, 'DoubleImage', 1}, {'vl_covdet PatchResolution 0', @vl_covdet, I, 'PatchResolution', 0}, {'vl_covdet LiopRadius', @vl_covdet, I, 'Descriptor', 'LIOP', 'LiopRadius', 9, 'PatchResolution', 5}, {'vl_covdet OctaveResolution 0', @vl_covdet, I, 'OctaveResolution', 0}, ...
      {'vl_liop of class double', @vl_liop, double(I)}, {'vl_liop even', @vl_liop, I(1:16, 1:16)}, {'vl_liop not square', @vl_liop, I(1:15, :)}, {'vl_liop Radius -1', @vl_liop, I, 'Radius', -1}, {'vl_liop Radius 0', @vl_liop, I, 'Radius', 0}, {'vl_liop Radius too large', @vl_liop, I, 'Radius', 9}, {'vl_liop NumNeighbours 1', @vl_liop, I, 'NumNeighbours', 1}, {'vl_liop NumSpatialBins 0', @vl_liop, I, 'NumSpatialBins', 0}, {'vl_liop four dimensions', @vl_liop, rand(9, 9, 2, 2, 'single')}, ...
      {'vl_hog of class double', @vl_hog, double(I), 4}, {'vl_hog without cell size', @vl_hog, I}, {'vl_hog cell size 0', @vl_hog, I, 0}, {'vl_hog NumOrientations 0', @vl_hog, I, 4, 'NumOrientations', 0}, {'vl_hog unknown variant', @vl_hog, I, 4, 'Variant', 'Foo'}, {'vl_hog unknown command', @vl_hog, 'foo'}, {'vl_hog polar field of one channel', @vl_hog, I, 4, 'DirectedPolarField'}, {'vl_hog render without descriptor', @vl_hog, 'render'}, {'vl_hog render of 30 channels', @vl_hog, 'render', rand(2, 2, 30, 'single')}, {'vl_hog render of class double', @vl_hog, 'render', rand(2, 2, 31)}, {'vl_hog four dimensions', @vl_hog, rand(9, 9, 2, 2, 'single'), 4}, ...
      {'vl_lbp of class double', @vl_lbp, double(I), 4}, {'vl_lbp cell size 0', @vl_lbp, I, 0}, {'vl_lbp one argument', @vl_lbp, I}, {'vl_lbp three dimensions', @vl_lbp, rand(9, 9, 2, 'single'), 3}, {'vl_lbp complex', @vl_lbp, complex(I, I), 3}};
    for k = 1:numel(c), bad(fid, c{k}{1}, c{k}{2:end}); end
  end
  catch err
    put(fid, 'Error', 'in', quoted([kind ': ' regexprep(err.message, '[^ -!#-\[\]-~]', ' ')]));
  end
end
fclose(fid);
