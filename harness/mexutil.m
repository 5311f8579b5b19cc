1;
function r = num(v)
  r = ['[' lower(strjoin(cellstr(num2str0(v)), ',')) ']'];
end
function c = num2str0(v)
  v = double(v(:)); if isempty(v), c = ''; else c = sprintf('"%.17g",', v)(1:end-1); end
end
function r = nums(X)
  r = '['; for k = 1:size(X, 2), if k > 1, r = [r ',']; end, r = [r num(X(:, k))]; end, r = [r ']'];
end
function r = list(v)
  v = double(v(:)); v(~isfinite(v) | v ~= round(v) | abs(v) > 2147483647) = -1999999999; r = ['[' sprintf('%d,', v)(1:end-1) ']']; % what is no integer is never expected
end
function put(fid, e, varargin)
  s = ['{"e":"' e '"'];
  for k = 1:2:numel(varargin)
    v = varargin{k + 1}; if islogical(v), v = {'false', 'true'}{1 + v}; elseif isnumeric(v), v = list(v); if numel(varargin{k + 1}) == 1, v = v(2:end-1); end, end
    s = [s ',"' varargin{k} '":' v];
  end
  fprintf(fid, '%s}\n', s);
end
function r = quoted(s)
  r = ['"' s '"'];
end
function r = refused(f, varargin)
  r = false; try f(varargin{:}); catch, r = true; end
end
function nout2(f, varargin)
  [a, b] = f(varargin{:});
end
function bad(fid, name, f, varargin)
  put(fid, 'Refuse', 'what', quoted(name), 'refused', refused(f, varargin{:}));
end
% the options in some order, their names in some case
function o = mix(varargin)
  o = {}; p = randperm(numel(varargin));
  for k = p, v = varargin{k}; n = v{1}; switch floor(rand * 3), case 0, n = lower(n); case 1, n = upper(n); end, o = [o {n} v(2:end)]; end
end
function r = pick(varargin)
  r = varargin{ceil(rand * numel(varargin))};
end
% an image, or its channels: columns of numbers
function r = pic(I)
  r = '['; for k = 1:size(I, 3), if k > 1, r = [r ',']; end, r = [r nums(I(:, :, k))]; end, r = [r ']'];
end
function r = ints(I)
  r = '['; for k = 1:size(I, 2), if k > 1, r = [r ',']; end, r = [r list(double(I(:, k)))]; end, r = [r ']'];
end
function r = ipic(I)
  r = '['; for k = 1:size(I, 3), if k > 1, r = [r ',']; end, r = [r ints(I(:, :, k))]; end, r = [r ']'];
end
function r = squeeze1(A, k)
  r = reshape(A(:, :, k, :), size(A, 1), size(A, 2), 3);
end
function o = opt(name, value, default)
  o = {}; if ~isequal(value, default) || rand < .3, o = {{name, value}}; end
end
function r = word(w)
  r = pick(w, lower(w), upper(w));
end
warning('off');
a = argv(); seed = str2num(a{2}); rand('state', seed); randn('state', seed); part = 0; fid = -1;
n = 450; if strcmp(a{3}, 'thorough'), n = 4500; end
only = getenv('VF_KIND'); kinds = {'smooth', 'integral', 'dist', 'grad', 'resize', 'xyz', 'rgb', 'cie', 'mosaic', 'refuse'};
for t = 1:n
  if mod(t - 1, 30) == 0, if fid >= 0, fclose(fid); end, part += 1; fid = fopen(sprintf('%s/util-%03d.ndjson', a{1}, part), 'w'); end
  kind = kinds{1 + mod(t - 1, numel(kinds))}; if ~isempty(only), kind = only; end
  cl = pick('single', 'double');
  try
  switch kind
  case 'smooth'
    I = cast(randn(ceil(rand * 9), ceil(rand * 9), pick(1, 1, 2, 3)), cl); s = pick(0, .005, .3, 1, 1.2, 1.7, 2, 3.4); st = pick(1, 1, 2, 3, 12); tri = rand < .4; z = rand < .4;
    o = mix([opt('Kernel', word({'gaussian', 'triangular'}{1 + tri}), 'gaussian'), opt('Padding', word({'continuity', 'zero'}{1 + z}), 'continuity'), opt('Subsample', st, 1)]{:});
    J = vl_imsmooth(I, s, o{:}); put(fid, 'Smooth', 'kernel', quoted({'gaussian', 'triangular'}{1 + tri}), 'pad', quoted({'continuity', 'zero'}{1 + z}), 'step', st, 's', quoted(sprintf('%.17g', s)), 'cls', quoted(cl), 'outclass', quoted(class(J)), 'img', pic(I), 'out', pic(J));
  case 'integral'
    c = pick('single', 'double', 'uint32', 'int32'); I = cast(floor(randn(ceil(rand * 9), ceil(rand * 9), pick(1, 1, 2)) * 50), c); if c(1) == 'u' && rand < .5, I = I * 99999999; elseif any(c(1) == 'sd') && rand < .5, I = I + cast(rand, c); end
    J = vl_imintegral(I); put(fid, 'Integral', 'cls', quoted(c), 'outclass', quoted(class(J)), 'img', pic(I), 'out', pic(J));
  case 'dist'
    I = cast(5 * randn(ceil(rand * 6), ceil(rand * 6)), cl); if rand < .3, I = cast(10 * (I > 0), cl); elseif rand < .2, I(rand(size(I)) < .5) = Inf; I(1) = 0; end
    p = [pick(1, .3, 2, 0) pick(0, 1, -.7) pick(1, .3, 2, 0) pick(0, -1, .4)]; if rand < .3, p = [1 0 1 0]; o = {}; else o = {p}; end
    x = []; two = rand < .7; if two, [D, x] = vl_imdisttf(I, o{:}); else D = vl_imdisttf(I, o{:}); end
    put(fid, 'Dist', 'indexed', two, 'param', num(p), 'cls', quoted(cl), 'outclass', quoted(class(D)), 'img', nums(I), 'out', nums(D), 'idx', ints(x));
  case 'grad'
    I = randn(2 + floor(rand * 6), 2 + floor(rand * 6)); ty = pick('central', 'forward', 'backward');
    if rand < .5, o = mix(opt('Type', word(ty), 'central'){:}); [x, y] = vl_grad(I, o{:});
    else, o = {}; if ~strcmp(ty, 'central') || rand < .3, o = pick({'Type', ty}, {ty}); end, [x, y] = vl_imgrad(I, o{:}); end
    put(fid, 'Grad', 'type', quoted(ty), 'img', nums(I), 'x', nums(x), 'y', nums(y));
  case 'resize'
    c = pick('single', 'double', 'uint8'); I = cast(rand(ceil(rand * 7), ceil(rand * 7), pick(1, 1, 3)) * 255, c);
    if rand < .4, I = double(I); J = vl_imup(I); for k = 1:size(I, 3), put(fid, 'Up', 'img', nums(I(:, :, k)), 'out', nums(J(:, :, k))); end
    else, I = I(:, :, 1); m = pick('sample', 'average'); o = mix(opt('Method', word(m), 'sample'){:}); J = vl_imdown(I, o{:}); put(fid, 'Down', 'method', quoted(m), 'cls', quoted(c), 'outclass', quoted(class(J)), 'img', nums(I), 'out', nums(J)); end
  case {'xyz', 'rgb', 'cie'}
    m = ceil(rand * 3); k = ceil(rand * 3); R = rand(m, k, 3); if rand < .4, R = round(R); elseif rand < .2, R = R * .05; elseif rand < .3, R = .114 + R * .005; end
    if rand < .2, R = uint8(R * 255); end, S = R; if isinteger(R), S = double(R) / 255; end, F = @(I) reshape(I, [], 3)'; ws = pick('CIE', 'Adobe'); o = {}; if ~strcmp(ws, 'CIE') || rand < .4, o = {ws}; end
    X = vl_rgb2xyz(R, o{:});
    switch kind
    case 'xyz', put(fid, 'Colour', 'to', quoted('xyz'), 'par', quoted(ws), 'real', isreal(X) && isequal(size(X), size(zeros(m, k, 3))), 'pix', nums(F(S)), 'out', nums(F(X)));
    case 'rgb', g = true; if rand < .3, X = rand(m, k, 3); g = false; end
      Q = vl_xyz2rgb(X, o{:}); put(fid, 'Colour', 'to', quoted('rgb'), 'par', quoted(ws), 'gamut', g, 'real', isreal(Q) && isequal(size(Q), size(zeros(m, k, 3))), 'src', nums(F(S)), 'pix', nums(F(X)), 'out', nums(F(real(Q))));
    case 'cie', il = pick('A', 'B', 'C', 'E', 'D50', 'D55', 'D65', 'D75', 'D93'); o = {}; if il ~= 'E' | rand < .5, o = {word(il)}; end
      if rand < .5, to = 'lab'; Q = vl_xyz2lab(X, o{:}); else to = 'luv'; Q = vl_xyz2luv(X, o{:}); end
      put(fid, 'Colour', 'to', quoted(to), 'par', quoted(lower(il)), 'real', isreal(Q) && isequal(size(Q), size(zeros(m, k, 3))), 'pix', nums(F(X)), 'out', nums(F(Q)));
    end
  case 'mosaic'
    c = pick('double', 'single', 'uint8'); h = ceil(rand * 4); w = ceil(rand * 4); K = ceil(rand * 7); if rand < .5, ch = 1; else ch = 3; end
    if ch == 1, A = cast(floor(rand(h, w, K) * 99), c); G = @(k) A(:, :, k); elseif rand < .5 || K == 1 || K == 3, A = cast(floor(rand(h, w, 3, K) * 99), c); G = @(k) A(:, :, :, k); else, A = cast(floor(rand(h, w, K, 3) * 99), c); G = @(k) squeeze1(A, k); end
    if ch == 3 && ndims(A) < 4, ch = 1; K = 3; G = @(k) A(:, :, k); end
    ly = []; if rand < .5, ly = [ceil(rand * 3), ceil(rand * 4)]; end, sp = pick(0, 1, 2); fv = floor(rand(1, pick(1, ch)) * 50); rv = rand < .4; q = K; if ~isempty(ly), q = min(K, prod(ly)); end
    if isequal(fv, 0) && ch == 1, fv = 0; end, o = mix([opt('Layout', ly, []), opt('Spacing', sp, 0), opt('FillValue', fv, 0), opt('Reverse', rv, false)]{:}); J = vl_imarray(A, o{:}); f2 = fv; if numel(fv) == 1, f2 = repmat(fv, 1, ch); end
    im = {}; for k = 1:q, im{k} = ipic(G(k)); end
    put(fid, 'Mosaic', 'h', h, 'w', w, 'channels', ch, 'spacing', sp, 'reverse', rv, 'layout', list(ly), 'fill', list(f2), 'cls', quoted(c), 'outclass', quoted(class(J)), 'size', list([size(J, 1) size(J, 2) size(J, 3)]), 'imgs', ['[' strjoin(im, ',') ']'], 'out', ipic(J));
  case 'refuse'
    I = rand(5, 6); C = rand(2, 2, 3);
    c = {{'vl_imsmooth one argument', @vl_imsmooth, I}, {'vl_imsmooth of class uint8', @vl_imsmooth, uint8(I), 1}, {'vl_imsmooth negative sigma', @vl_imsmooth, I, -1}, {'vl_imsmooth sigma NaN', @vl_imsmooth, I, NaN}, {'vl_imsmooth sigma infinite', @vl_imsmooth, I, Inf}, {'vl_imsmooth sigma of class single', @vl_imsmooth, I, single(1)}, {'vl_imsmooth Subsample 0', @vl_imsmooth, I, 1, 'Subsample', 0}, {'vl_imsmooth Subsample -1', @vl_imsmooth, I, 1, 'Subsample', -1}, {'vl_imsmooth Subsample NaN', @vl_imsmooth, I, 1, 'Subsample', NaN}, ...
      {'vl_imsmooth unknown kernel', @vl_imsmooth, I, 1, 'Kernel', 'box'}, {'vl_imsmooth unknown padding', @vl_imsmooth, I, 1, 'Padding', 'mirror'}, {'vl_imsmooth four dimensions', @vl_imsmooth, rand(2, 2, 2, 2), 1}, {'vl_imsmooth complex', @vl_imsmooth, complex(I, I), 1}, {'vl_imsmooth sparse', @vl_imsmooth, sparse(I > .5) * 1, 1}, {'vl_imsmooth two outputs', @() nout2(@vl_imsmooth, I, 1)}, ...
      {'vl_imintegral no argument', @vl_imintegral}, {'vl_imintegral of class uint8', @vl_imintegral, uint8(I)}, {'vl_imintegral of a string', @vl_imintegral, 'abc'}, {'vl_imintegral complex', @vl_imintegral, complex(I, I)}, {'vl_imintegral sparse', @vl_imintegral, sparse(I > .9) * 1}, {'vl_imintegral four dimensions', @vl_imintegral, rand(2, 2, 2, 2)}, {'vl_imintegral two arguments', @vl_imintegral, I, 1}, ...
      {'vl_imdisttf no argument', @vl_imdisttf}, {'vl_imdisttf of class uint8', @vl_imdisttf, uint8(I)}, {'vl_imdisttf three dimensions', @vl_imdisttf, rand(2, 2, 2)}, {'vl_imdisttf three parameters', @vl_imdisttf, I, [1 0 1]}, {'vl_imdisttf negative coefficient', @vl_imdisttf, I, [-1 0 1 0]}, {'vl_imdisttf other negative coefficient', @vl_imdisttf, I, [1 0 -1 0]}, {'vl_imdisttf parameters of class single', @vl_imdisttf, I, single([1 0 1 0])}, {'vl_imdisttf complex', @vl_imdisttf, complex(I, I)}, {'vl_imdisttf sparse', @vl_imdisttf, sparse(I > .9) * 1}, {'vl_imdisttf three arguments', @vl_imdisttf, I, [1 0 1 0], 1}, ...
      {'vl_grad unknown type', @vl_grad, I, 'Type', 'foo'}, {'vl_imgrad unknown type', @vl_imgrad, I, 'Type', 'foo'}, {'vl_imgrad unknown option', @vl_imgrad, I, 'Foo', 1}, {'vl_imgrad unknown word', @vl_imgrad, I, 'foo'}, {'vl_imdown unknown method', @vl_imdown, I, 'Method', 'foo'}, {'vl_imdown unknown option', @vl_imdown, I, 'Foo', 1}, {'vl_rgb2xyz two channels', @vl_rgb2xyz, rand(2, 2, 2)}, {'vl_rgb2xyz unknown space', @vl_rgb2xyz, C, 'foo'}, {'vl_xyz2rgb unknown space', @vl_xyz2rgb, C, 'foo'}, {'vl_xyz2lab unknown illuminant', @vl_xyz2lab, C, 'foo'}, {'vl_xyz2luv unknown illuminant', @vl_xyz2luv, C, 'foo'}, ...
      {'vl_imarray four dimensions', @vl_imarray, rand(2, 2, 2, 2)}, {'vl_imarray fill value', @vl_imarray, rand(2, 2, 3, 2), 'FillValue', [1 2]}, {'vl_imarray unknown option', @vl_imarray, I, 'Foo', 1}};
    z = pick(zeros(0, 5), zeros(5, 0), zeros(0, 0)); st = pick(1, 2, 3); J = vl_imsmooth(z, pick(0, 1), 'Subsample', st); K = vl_imintegral(z); D = vl_imdisttf(z); put(fid, 'Empty', 'size', list(size(z)), 'step', st, 'smooth', list(size(J)), 'integral', list(size(K)), 'dist', list(size(D)));
    for k = 1:numel(c), bad(fid, c{k}{1}, c{k}{2:end}); end
  end
  catch err
    put(fid, 'Error', 'in', quoted([kind ': ' regexprep(err.message, '[^ -!#-\[\]-~]', ' ')]));
  end
end
fclose(fid);
