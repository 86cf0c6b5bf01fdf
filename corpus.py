"""The sentences the checks start from.

Each line is `dialects args flags | text`. Tokens are separated by blanks. `<<a ~ b ~ >>` is a choice
between token sequences (possibly empty), `<<a>>` means `<<a ~ >>`.
dialects: letters of m (MariaDB), p (PostgreSQL), s (Sqlite): the text is valid there. Upper case
`M`, `P`, `S` likewise, and in the dialects that are not listed the text must be rejected.
args: - none, q '?', n '$1', f '%s'.  flags: - or any of M (statement list), L (list hack).
"""
CORPUS = r"""
mps - - | SELECT <<ALL ~ DISTINCT ~ DISTINCTROW ~ >> <<HIGH_PRIORITY>> <<STRAIGHT_JOIN>> <<SQL_SMALL_RESULT>> <<SQL_BIG_RESULT>> <<SQL_BUFFER_RESULT>> <<SQL_NO_CACHE>> <<SQL_CALC_FOUND_ROWS>> a FROM t
mps - - | SELECT a AS x , b . c , t . * , * FROM t
mps - - | SELECT 1
mps - - | SELECT * FROM t <<AS x ~ y ~ >> , s . u
mps - - | SELECT a FROM t <<WHERE a = 1>> <<GROUP BY a , b + 1>> <<HAVING c > 2>> <<ORDER BY a ASC , b DESC , c>> <<LIMIT 1 ~ LIMIT 2 , 3 ~ LIMIT 4 OFFSET 5 ~ >>
mps - - | SELECT a FROM t <<FOR UPDATE ~ FOR SHARE ~ FOR UPDATE NOWAIT ~ FOR SHARE SKIP LOCKED ~ FOR UPDATE SKIP LOCKED ~ FOR SHARE NOWAIT ~ >>
mps - - | SELECT a FROM t LIMIT 3 FOR UPDATE <<OF t , u>> <<NOWAIT>>
mps - - | SELECT a FROM t <<JOIN ~ INNER JOIN ~ CROSS JOIN ~ STRAIGHT_JOIN ~ LEFT JOIN ~ LEFT OUTER JOIN ~ RIGHT JOIN ~ RIGHT OUTER JOIN>> u <<ON t . a = u . b ~ USING a , b>> WHERE c
mps - - | SELECT a FROM t <<NATURAL JOIN ~ NATURAL INNER JOIN ~ NATURAL LEFT JOIN ~ NATURAL LEFT OUTER JOIN ~ NATURAL RIGHT JOIN ~ NATURAL RIGHT OUTER JOIN>> u
mps - - | SELECT a FROM t JOIN u ON a = b LEFT JOIN v ON c = d , w
mps - - | SELECT a FROM ( SELECT b FROM u WHERE c = 1 ) AS x WHERE a IN ( SELECT d FROM v )
mps - - | SELECT a FROM ( SELECT b FROM u ) x JOIN ( SELECT c FROM v ) AS y ON d
M - - | SELECT a FROM t <<USE ~ IGNORE ~ FORCE>> <<INDEX ~ KEY>> <<FOR JOIN ~ FOR GROUP BY ~ FOR ORDER BY ~ >> ( i1 , i2 )
mps - - | SELECT a FROM t UNION <<ALL ~ DISTINCT ~ >> SELECT b FROM u <<ORDER BY a DESC>> <<LIMIT 3>>
mps - - | ( SELECT a FROM t ) UNION ( SELECT b FROM u ) UNION ALL SELECT c FROM v
mps - - | SELECT a + b * c - d / e AND f OR g XOR h && i || j
mps - - | SELECT a = b , a <=> b , a >= b , a > b , a <= b , a < b , a != b , a <> b
mps - - | SELECT a << b , c >> d , e & f , g | h , - i , ! j , NOT k
mps - - | SELECT a LIKE b , c NOT LIKE d , e IN ( 1 , 2 ) , f NOT IN ( 3 )
mps - - | SELECT a IS NULL , b IS NOT NULL , c IS TRUE , d IS NOT TRUE , e IS FALSE , f IS NOT FALSE , g IS UNKNOWN , h IS NOT UNKNOWN
mps - - | SELECT CASE a WHEN 1 THEN 2 WHEN 3 THEN 4 ELSE 5 END , CASE WHEN b THEN c END
mps - - | SELECT CAST( a AS CHAR ) , CAST ( b AS INT ) , CAST( c AS VARCHAR ( 5 ) ) , CAST( d AS DATE )
mps - - | SELECT COUNT ( * ) , COUNT ( DISTINCT a ) , COUNT ( b ) , SUM ( c ) , MAX ( d ) , MIN ( e ) , AVG ( f )
mps - - | SELECT GROUP_CONCAT ( a ) , GROUP_CONCAT ( DISTINCT b )
mps - - | SELECT EXISTS ( SELECT a FROM t ) , ( SELECT 1 ) , ( a )
mps - - | SELECT IF ( a , b , c ) , IFNULL ( a , b ) , COALESCE ( a , b , c ) , CONCAT ( a , 'x' ) , myfunc ( a , b )
mps - - | SELECT EXTRACT( YEAR FROM a ) , TIMESTAMPADD( DAY , 1 , b ) , TIMESTAMPDIFF( HOUR , c , d )
mps - - | SELECT a + INTERVAL 1 DAY , b - INTERVAL '1 2' DAY_HOUR
mps - - | SELECT CURRENT_DATE , CURRENT_TIME , CURRENT_TIMESTAMP , CURRENT_TIMESTAMP ( 3 ) , NOW ( )
m - - | SELECT @@GLOBAL . a , @@SESSION . b , @@GLOBAL . c + 1
mps - - | SELECT ROW_NUMBER ( ) OVER ( ORDER BY c DESC , d ) , RANK ( ) OVER ( ORDER BY e )
mps - - | SELECT LEAD ( a , 1 ) OVER ( ORDER BY b ) , 1.5 , .5 , 7 , 'x' , TRUE , FALSE , NULL
mps - - | SELECT ( a + b ) * ( c - d ) , ( ( e ) )
mps - - | SELECT - a + - b , NOT a = b , ! a , NOT NOT c
mps q - | SELECT ? , a FROM t WHERE b = ? AND c IN ( ? , ? ) LIMIT ?
mps f - | SELECT %s , a FROM t WHERE b = %s
mps n - | SELECT $1 , a FROM t WHERE b = $2 OR c = $1
mps - L | SELECT a FROM t WHERE b IN ( _LIST_ )
mps - - | INSERT <<LOW_PRIORITY ~ HIGH_PRIORITY ~ DELAYED ~ >> <<IGNORE>> <<INTO>> t <<( a , b )>> VALUES ( 1 , 'x' ) , ( 2 , c + 1 )
mps - - | REPLACE <<LOW_PRIORITY ~ DELAYED ~ >> <<INTO>> s . t <<( a )>> VALUES ( 1 )
mps - - | INSERT INTO t <<( a , b )>> SELECT c , d FROM u
mps - - | INSERT INTO t SET a = 1 , b = c + 2
M - - | INSERT INTO t ( a ) VALUES ( 1 ) ON DUPLICATE KEY UPDATE a = 2 , b = VALUES ( a )
P - - | INSERT INTO t ( a ) VALUES ( 1 ) ON CONFLICT <<( a , b ) ~ ON CONSTRAINT n ~ >> DO <<NOTHING ~ UPDATE SET a = 1 , b = c ~ UPDATE SET a = 2 WHERE d = 3>>
mps - - | INSERT INTO t ( a ) VALUES ( 1 ) RETURNING a AS x , *
P - - | INSERT INTO t ( a ) VALUES ( 1 ) ON CONFLICT DO NOTHING RETURNING b
mps - - | UPDATE <<LOW_PRIORITY>> <<IGNORE>> t <<AS x>> SET a = 1 , t . b = c + 1 <<WHERE d = 2>>
mps - - | UPDATE t , u SET t . a = u . b
mps - - | UPDATE s . t SET s . t . a = 1 <<, u . b = 2>> <<, q . r . c = t . d>>
mps - - | UPDATE t JOIN u ON t . a = u . a SET b = 1
P - - | UPDATE t SET a = 1 WHERE b = 2 RETURNING a , b AS c
mps - - | DELETE <<LOW_PRIORITY>> <<QUICK>> <<IGNORE>> FROM t <<WHERE a = 1>>
mps - - | DELETE FROM t USING t JOIN u ON a = b <<WHERE c = 1>>
mps - - | DELETE t , s . u FROM t JOIN u ON a = b WHERE c = 2
mps - - | DELETE FROM t WHERE a = 1 RETURNING b , *
mps - - | DROP <<TEMPORARY>> TABLE <<IF EXISTS>> a , s . b
P - - | DROP TABLE a CASCADE
mps - - | DROP <<DATABASE ~ SCHEMA>> <<IF EXISTS>> a
mps - - | DROP EVENT <<IF EXISTS>> s . a
mps - - | DROP FUNCTION <<IF EXISTS>> s . a
mps - - | DROP PROCEDURE <<IF EXISTS>> s . a
mps - - | DROP SERVER <<IF EXISTS>> a
mps - - | DROP TRIGGER <<IF EXISTS>> s . a
mps - - | DROP VIEW <<IF EXISTS>> a , s . b
Ms - - | DROP INDEX <<IF EXISTS>> a ON s . t
Ps - - | DROP INDEX <<IF EXISTS>> a
P - - | WITH x AS ( SELECT a FROM t ) SELECT b FROM x
P - - | WITH x AS ( DELETE FROM t WHERE a = 1 RETURNING b ) , y AS ( UPDATE u SET c = 1 ) INSERT INTO v ( d ) SELECT e FROM x
mps - - | CREATE <<OR REPLACE>> <<TEMPORARY>> TABLE <<IF NOT EXISTS>> t ( a INT , b VARCHAR ( 10 ) NOT NULL )
mps - - | CREATE TABLE t ( a INT ) <<ENGINE = InnoDB>> <<DEFAULT CHARSET = utf8>> <<COLLATE = utf8_bin>> <<ROW_FORMAT = COMPRESSED>> <<COMMENT = 'c'>> <<STRICT>>
mps - - | CREATE TABLE t ( a INT ) ENGINE InnoDB CHARSET utf8 DEFAULT COLLATE utf8_bin
mps - - | CREATE TABLE t ( a BOOLEAN , c TINYINT , d TINYINT ( 3 ) , e SMALLINT , f SMALLINT ( 4 ) , g INT ( 5 ) , h INTEGER )
mps - - | CREATE TABLE t ( a BIGINT , b BIGINT ( 6 ) , c TINYTEXT , d TINYTEXT ( 7 ) , e TEXT , f TEXT ( 8 ) , g MEDIUMTEXT , h LONGTEXT ( 9 ) )
mps - - | CREATE TABLE t ( a DATE , b DATETIME , c DATETIME ( 3 ) , d TIMESTAMP , e TIMESTAMP ( 6 ) , f TIME , g TIME ( 2 ) , h TIMESTAMPTZ , i INET4 , j INET6 )
mps - - | CREATE TABLE t ( a FLOAT , c REAL , d FLOAT8 , e NUMERIC ( 5 , 2 ) , f BYTEA , g JSON , h BIT ( 4 ) , i CHAR , j CHAR ( 3 ) )
mps - - | CREATE TABLE t ( a TINYBLOB , b TINYBLOB ( 5 ) , c BLOB , d BLOB ( 5 ) , e MEDIUMBLOB , f LONGBLOB ( 9 ) , g VARBINARY ( 8 ) , h BINARY ( 4 ) )
mps - - | CREATE TABLE t ( a ENUM ( 'x' , 'y' ) , b SET ( 'z' , 'w' ) , c VARCHAR ( 5 ) CHARACTER SET utf8 COLLATE utf8_bin )
ms - - | CREATE TABLE t ( a DOUBLE NOT NULL , b DOUBLE )
P - - | CREATE TABLE t ( a DOUBLE PRECISION , b mytype , c INT GENERATED ALWAYS AS IDENTITY )
mps - - | CREATE TABLE t ( a INT <<SIGNED>> <<UNSIGNED>> <<ZEROFILL>> <<NOT NULL>> <<NULL>> <<AUTO_INCREMENT>> <<PRIMARY KEY>> <<UNIQUE>> <<UNIQUE KEY>> <<COMMENT 'x'>> <<DEFAULT 5>> )
ms - - | CREATE TABLE t ( a INT DEFAULT ( 1 + 2 ) , b INT AS ( a + 1 ) <<VIRTUAL ~ PERSISTENT ~ STORED>> , c INT GENERATED ALWAYS AS ( a ) , d INT CHECK ( d > 0 ) , e DATETIME DEFAULT CURRENT_TIMESTAMP )
mps - - | CREATE TABLE t ( a INT , CONSTRAINT n FOREIGN KEY ( a , b ) REFERENCES u ( c , d ) <<ON DELETE CASCADE ~ ON DELETE SET NULL ~ ON DELETE RESTRICT ~ >> )
mps - - | CREATE <<OR REPLACE>> <<ALGORITHM = UNDEFINED ~ ALGORITHM = MERGE ~ ALGORITHM = TEMPTABLE ~ >> <<DEFINER = u @ h>> <<SQL SECURITY DEFINER ~ SQL SECURITY USER ~ >> VIEW <<IF NOT EXISTS>> v AS SELECT a FROM t
M - - | CREATE <<OR REPLACE>> FUNCTION <<IF NOT EXISTS>> f ( <<IN ~ OUT ~ INOUT ~ >> a INT , b TEXT ) RETURNS INT <<LANGUAGE SQL>> <<DETERMINISTIC ~ NOT DETERMINISTIC ~ >> <<CONTAINS SQL ~ NO SQL ~ READS SQL DATA ~ MODIFIES SQL DATA ~ >> <<SQL SECURITY DEFINER ~ SQL SECURITY USER ~ >> <<COMMENT 'x'>> RETURN a + 1
P - - | CREATE FUNCTION f ( a INT ) RETURNS INT AS $$ BEGIN RETURN 1 ; END $$ LANGUAGE PLPGSQL
mps - - | CREATE TRIGGER <<IF NOT EXISTS>> tr <<BEFORE ~ AFTER>> <<INSERT ~ UPDATE ~ DELETE>> ON t FOR EACH ROW SET a = 1
mps - - | CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW BEGIN SET a = 1 ; UPDATE u SET b = 2 WHERE c = 3 ; END
mps - - | CREATE TRIGGER tr AFTER DELETE ON t FOR EACH ROW BEGIN IF a THEN SET b = 1 ; SET c = 2 ; ELSEIF d THEN SET e = 3 ; ELSE SET f = 4 ; END IF ; END
mps - - | CREATE TRIGGER tr AFTER DELETE ON t FOR EACH ROW BEGIN BEGIN SET a = 1 ; END ; IF a THEN IF b THEN SET c = 1 ; END IF ; SET d = 2 ; END IF ; SET e = 3 ; END
M - - | CREATE FUNCTION f ( a INT ) RETURNS INT BEGIN IF a THEN RETURN 1 ; END IF ; RETURN 2 ; END
P - - | CREATE TYPE n AS ENUM ( 'a' , 'b' , 'c' )
mps - - | CREATE <<UNIQUE>> INDEX <<IF NOT EXISTS>> i ON s . t ( a , b )
P - - | CREATE INDEX i ON t USING GIST ( a text_pattern_ops , b ) <<WHERE c = 1>>
m - - | ALTER <<ONLINE>> <<IGNORE>> TABLE <<IF EXISTS>> t ADD <<CONSTRAINT n>> FOREIGN KEY <<IF NOT EXISTS>> <<k>> ( a , b ) REFERENCES u ( c , d )
mps - - | ALTER TABLE t ADD FOREIGN KEY ( a ) REFERENCES u ( b ) <<ON UPDATE RESTRICT ~ ON UPDATE CASCADE ~ ON UPDATE SET NULL ~ ON UPDATE SET DEFAULT ~ ON UPDATE NO ACTION>> <<ON DELETE RESTRICT ~ ON DELETE CASCADE ~ ON DELETE SET NULL ~ ON DELETE SET DEFAULT ~ ON DELETE NO ACTION>>
mps - - | ALTER TABLE t ADD <<CONSTRAINT n>> <<PRIMARY KEY ~ INDEX i ~ KEY i ~ FULLTEXT INDEX i ~ SPATIAL INDEX i ~ UNIQUE KEY i ~ UNIQUE INDEX i ~ UNIQUE i ~ UNIQUE>> <<USING BTREE ~ USING HASH ~ USING RTREE ~ >> ( a , b ( 5 ) ) <<COMMENT 'x'>>
Ps - - | ALTER TABLE t ADD COLUMN IF NOT EXISTS a INT
mps - - | ALTER TABLE t ADD COLUMN a INT NOT NULL , MODIFY <<COLUMN>> <<IF EXISTS>> b VARCHAR ( 5 ) , DROP COLUMN c
mps - - | ALTER TABLE t OWNER TO x
mps - - | ALTER TABLE t DROP COLUMN a CASCADE , ADD COLUMN b INT
mps - - | ALTER TABLE t ALTER COLUMN a <<SET DEFAULT 5 ~ SET NOT NULL ~ DROP DEFAULT ~ DROP NOT NULL ~ TYPE INT>> , ALTER COLUMN b SET DEFAULT 1
mps - - | SET a = 1 , b = c + 2
m - - | SIGNAL SQLSTATE <<VALUE>> '45000' <<SET MESSAGE_TEXT = 'x' , CLASS_ORIGIN = 'y'>>
mps - - | SELECT a FROM t GROUP BY a + 1 , f ( b ) , c . d HAVING e AND f ORDER BY g , h + 1 DESC , i . j ASC LIMIT 1
mps - - | SELECT a FROM t , u AS x , s . v y , ( SELECT 1 ) AS z WHERE a
mps - - | SELECT a FROM t JOIN u ON a LEFT JOIN v USING b , c RIGHT JOIN w ON d = e NATURAL JOIN x
mps - - | SELECT a FROM t <<JOIN ~ LEFT JOIN ~ RIGHT JOIN ~ CROSS JOIN ~ NATURAL LEFT JOIN>> u ON a = b <<RIGHT JOIN ~ RIGHT OUTER JOIN ~ LEFT OUTER JOIN ~ NATURAL RIGHT JOIN ~ STRAIGHT_JOIN ~ INNER JOIN ~ CROSS JOIN>> v ON c WHERE d
mps - - | SELECT a FROM t UNION ( SELECT b FROM u ORDER BY c LIMIT 2 ) <<UNION ALL SELECT d FROM v WHERE e>> <<ORDER BY f DESC , g>> <<LIMIT 1 ~ LIMIT 1 , 2 ~ LIMIT 3 OFFSET 4>>
mps - - | SELECT a UNION <<ALL ~ DISTINCT ~ >> SELECT b UNION <<DISTINCT ~ >> SELECT c UNION <<ALL>> SELECT d
mps - - | ( SELECT a FROM t ) UNION <<ALL ~ DISTINCT ~ >> ( SELECT b FROM u ) <<ORDER BY a , b + 1 DESC , c ASC>> <<LIMIT 1 ~ LIMIT 1 , 2 ~ LIMIT 3 OFFSET 4 ~ >>
mps - - | SELECT CASE WHEN a THEN b WHEN c + 1 THEN d WHEN e THEN f + 1 ELSE g END , CASE a WHEN 1 + 2 THEN 3 WHEN 4 THEN 5 WHEN 6 THEN 7 END
mps - - | SELECT LPAD ( a , 1 , b ) , f ( a , b + 1 , c , d ) , MAX ( a ) + 1 , CONCAT ( a , b , c ) , PI ( )
mps - - | SELECT a + INTERVAL 1 YEAR - INTERVAL 2 MONTH , TIMESTAMPADD( SECOND , a , b ) , TIMESTAMPDIFF( YEAR_MONTH , c , d ) , EXTRACT( MINUTE FROM e )
mps - - | SELECT a IN ( b , c + 1 , d ) , e NOT IN ( f , g , h ) , a IN ( SELECT b FROM t WHERE c ) OR d
mps - - | SELECT RANK ( ) OVER ( ORDER BY a ASC , b DESC , c + 1 ) , COUNT ( * ) + 1 , UTC_DATE ( ) , UTC_TIMESTAMP
m - - | SELECT @@GLOBAL . TIME_ZONE , @@SESSION . TIME_ZONE
P - - | SELECT a FROM t FOR <<NO KEY UPDATE ~ KEY SHARE>> <<OF t , u , v>> <<NOWAIT ~ SKIP LOCKED ~ >>
mps - - | SELECT a FROM ( SELECT b FROM ( SELECT c FROM t WHERE d = 1 ) AS x , y WHERE e ) AS z , ( SELECT f UNION SELECT g ) AS w
mps q - | INSERT INTO t ( a , b , c ) VALUES ( ? , 2 , c + 1 ) , ( 4 , ? , 'x' ) , ( d , e , ? )
mps - - | INSERT INTO t SET a = 1 , b = c + 2 , d = 'x'
M - - | INSERT INTO t ( a , b ) SELECT c , d FROM u WHERE e ON DUPLICATE KEY UPDATE a = 1 , b = b + 1 , c = VALUES ( c )
mps - - | REPLACE INTO t SET a = 1 , b = c + 2
P - - | INSERT INTO t ( a ) SELECT b FROM u ON CONFLICT ( a , b , c ) DO UPDATE SET a = 1 , b = c + 1 , d = e WHERE f RETURNING a , b AS x , c . d
P - - | UPDATE t SET a = 1 , b = 2 + c , t . d = 3 RETURNING a AS x , b + 1 , *
mps - - | UPDATE t , u AS x , s . v SET t . a = u . b , c = d WHERE e = 1 AND f
mps - - | DELETE a , b , s . c FROM a JOIN b ON d LEFT JOIN c ON e WHERE f RETURNING g , h AS i
mps - - | DELETE FROM t USING t , u AS x JOIN v ON a = b WHERE c
mps - - | DROP TABLE IF EXISTS a , s . b , c
P - - | DROP TABLE a , b , c CASCADE
mps - - | DROP VIEW IF EXISTS a , s . b , c
P - - | WITH x AS ( SELECT a FROM t ) , y AS ( INSERT INTO u ( b ) VALUES ( 1 ) RETURNING c ) , z AS ( UPDATE v SET d = 1 RETURNING e ) <<SELECT f FROM x , y ~ UPDATE x SET g = 2 ~ DELETE FROM w WHERE h ~ INSERT INTO w SELECT i FROM z>>
ms - - | CREATE TABLE t ( a INT NOT NULL DEFAULT 1 COMMENT 'x' , b VARCHAR ( 10 ) CHARACTER SET utf8 NULL UNIQUE , c TIMESTAMP DEFAULT CURRENT_TIMESTAMP , d ENUM ( 'x' , 'y' , 'z' ) NOT NULL DEFAULT 'y' )
mps - - | CREATE TABLE t ( a SET ( 'x' , 'y' , 'z' ) , b TIMESTAMP WITH TIME ZONE , c TIMESTAMP ( 3 ) WITH TIME ZONE , d NUMERIC ( 10 , 0 ) NULL , e BIT ( 1 ) )
mps - - | CREATE TABLE t ( a INT , CONSTRAINT m FOREIGN KEY ( a ) REFERENCES u ( b ) ON DELETE CASCADE , CONSTRAINT n FOREIGN KEY ( a , b , c ) REFERENCES v ( d , e , f ) , g TEXT )
M - - | CREATE FUNCTION f ( IN a INT , OUT b TEXT , INOUT c VARCHAR ( 5 ) ) RETURNS VARCHAR ( 10 ) DETERMINISTIC READS SQL DATA COMMENT 'x' BEGIN SET d = 1 ; RETURN e ; END
mps - - | CREATE VIEW v AS SELECT a FROM t <<WHERE b = 1>> <<GROUP BY c>> <<UNION SELECT d>>
mps - - | CREATE UNIQUE INDEX i ON t ( a , b , c )
P - - | CREATE INDEX i ON t ( a text_pattern_ops , b , c varchar_pattern_ops ) WHERE d = 1 AND e
mps - - | CREATE TRIGGER tr AFTER UPDATE ON t FOR EACH ROW BEGIN IF a THEN SET b = 1 ; ELSEIF c THEN SET d = 2 ; SET e = 3 ; ELSEIF f THEN SET g = 4 ; ELSEIF h THEN SELECT i ; ELSE SET j = 5 ; SET k = 6 ; END IF ; END
mps - - | CASE a WHEN 1 THEN SET b = 2 ; SET c = 3 ; WHEN 2 THEN SET d = 4 ; WHEN 3 + e THEN SELECT f ; ELSE SET g = 5 ; SET h = 6 ; END CASE
mps - - | IF a = 1 THEN SET b = 1 ; SET c = 2 ; ELSEIF d THEN SET e = 3 ; ELSEIF f THEN SELECT g ; SET h = 4 ; ELSE SET i = 5 ; SET j = 6 ; END IF
mps - - | ALTER TABLE t ADD INDEX i ( a , b ( 3 ) , c ) USING HASH COMMENT 'x' , ADD UNIQUE j ( d ) USING BTREE , DROP COLUMN e , ADD COLUMN f INT NOT NULL
mps - - | ALTER TABLE s . t ADD COLUMN a INT , ADD COLUMN b TEXT NULL , MODIFY c VARCHAR ( 5 ) NOT NULL , DROP COLUMN d , DROP COLUMN e
mps - - | ALTER TABLE t ADD CONSTRAINT n FOREIGN KEY k ( a , b , c ) REFERENCES u ( d , e , f ) ON DELETE CASCADE ON UPDATE SET NULL , ADD PRIMARY KEY ( a )
mps - - | ALTER TABLE t ADD UNIQUE INDEX IF NOT EXISTS i ( a )
mps - - | RENAME TABLE a TO b , c TO s . d , s . e TO f
mps - - | SET a = 1 , b = c + 2 , d = 'x'
m - - | SIGNAL SQLSTATE '45000' SET SUBCLASS_ORIGIN = 'a' , MYSQL_ERRNO = 5 , CONSTRAINT_CATALOG = 'b' , CONSTRAINT_SCHEMA = 'c' , CONSTRAINT_NAME = 'd' , CATALOG_NAME = 'e'
m - - | SIGNAL SQLSTATE VALUE '45000' SET SCHEMA_NAME = 'f' , TABLE_NAME = 'g' , COLUMN_NAME = 'h' , CURSOR_NAME = 'i' , MESSAGE_TEXT = 'j'
P - - | CREATE TYPE n AS ENUM ( 'a' )
mps - - | BEGIN
mps - - | END
mps - - | START TRANSACTION
mps - - | COMMIT
mps - - | CASE a WHEN 1 THEN SET b = 2 ; WHEN 2 THEN SET c = 3 ; ELSE SET d = 4 ; END CASE
mps - - | IF a THEN SET b = 1 ; ELSEIF c THEN SET d = 2 ; ELSE SET e = 3 ; END IF
mps - - | RETURN a + 1
mps - - | TRUNCATE <<TABLE>> s . t
mps - - | RENAME TABLE a TO b , s . c TO s . d
p - M | COPY t ( a , b ) FROM STDIN ;
p - - | DO $$ BEGIN DROP TABLE a ; END $$
mps - M | SELECT 1 ; SELECT 2 ; DROP TABLE t ;
mps - M | DELIMITER $$ SELECT 1 $$ SELECT 2 $$ DELIMITER ; SELECT 3 ;
mps - M | BEGIN ; SELECT 1 ; COMMIT ;
P - - | SELECT "a" , "b c" AS "d" FROM "t" WHERE t . a = 'x'
m - - | SELECT "x" , 'y' , "a" 'b'
ms - - | SELECT `a` , `b-c` AS `select` FROM `s` . `t`
"""


# Sentences with a part missing, put in twice or in the wrong place; no dialect has them.
BAD = r"""
INSERT INTO t ( a ) SET b = 1
REPLACE IGNORE INTO t VALUES ( 1 )
REPLACE HIGH_PRIORITY INTO t VALUES ( 1 )
DELETE a FROM t USING u WHERE b
DELETE a , b FROM t USING t , u
DROP TEMPORARY DATABASE a
DROP TEMPORARY FUNCTION a
DROP TEMPORARY INDEX i ON t
WITH x AS ( DROP TABLE t ) SELECT 1
WITH x AS ( SELECT 1 ) DROP TABLE t
WITH x AS ( SELECT 1 ) SET a = 1
ALTER TABLE t ADD CONSTRAINT n COLUMN a INT
CREATE TABLE t ( a INT , a INT , )
INSERT INTO t ( ) VALUES ( )
SELECT a + INTERVAL 'x y' DAY
SELECT a + INTERVAL 1 FOO
SELECT a FROM t LIMIT 1 , 2 OFFSET 3
SELECT a FROM t ORDER BY b GROUP BY c
SELECT a FROM t HAVING b WHERE c
SELECT a FROM t LIMIT 1 ORDER BY b
SELECT a WHERE
SELECT a b FROM t
SELECT FROM t
SELECT a , FROM t
SELECT a FROM t , WHERE b
SELECT a FROM t JOIN u ON
SELECT a FROM t JOIN
SELECT a FROM t NATURAL CROSS JOIN u
SELECT a FROM t WHERE b GROUP c
SELECT a FROM t ORDER c
UPDATE t SET
UPDATE t SET a
UPDATE t SET a = 1 b = 2
UPDATE t a = 1
INSERT INTO t VALUES 1 , 2
INSERT INTO t VALUES ( 1 ) ( 2 )
INSERT INTO t ( a b ) VALUES ( 1 )
INSERT t ( a )
DELETE t WHERE a
DELETE FROM
DROP TABLE
DROP TABLE a b
DROP TABLE IF a
DROP
CREATE TABLE t
CREATE TABLE t ( a )
CREATE TABLE t a INT
CREATE VIEW v SELECT 1
CREATE INDEX i t ( a )
CREATE INDEX i ON t
ALTER TABLE t
ALTER t ADD COLUMN a INT
SET a
SET a =
TRUNCATE
RENAME TABLE a b
SELECT CASE a END
SELECT CASE WHEN a END
SELECT CASE a WHEN 1 THEN 2 ELSE 3 ELSE 4 END
SELECT a IN b
SELECT a IN ( )
SELECT a NOT b
SELECT a IS b
SELECT a IS NOT
SELECT a +
SELECT + a
SELECT * a
SELECT a b c
SELECT a = = b
SELECT CAST( a INT )
SELECT CAST( a AS )
SELECT EXISTS ( a )
SELECT COUNT ( )
SELECT COUNT ( a , b )
SELECT TIMESTAMPADD( DAY , 1 )
SELECT EXTRACT( DAY a )
SELECT f ( a , )
SELECT f ( , a )
SELECT RANK ( ) OVER ORDER BY a
SELECT RANK ( ) OVER ( )
SELECT a UNION b
SELECT a FROM t ORDER BY b UNION SELECT c
SELECT a FROM t LIMIT 1 UNION ALL SELECT c
SELECT a FROM t FOR UPDATE UNION SELECT c
SELECT a FROM t UNION SELECT b FROM u ORDER BY c UNION SELECT d
SELECT a UNION
( SELECT a ) b
DO $$ BEGIN SELECT 1 ; EXCEPTION WHEN a THEN b END $$
DO $$ BEGIN SELECT 1 ; EXCEPTION WHEN a THEN b ; WHEN c THEN d END $$
DO $$ BEGIN SELECT 1 ; EXCEPTION WHEN a THEN ; END $$
DO $$ BEGIN SELECT 1 ; EXCEPTION WHEN a b ; END $$
DO $$ BEGIN SELECT 1 ; EXCEPTION WHEN THEN b ; END $$
DO $$ BEGIN SELECT 1 ; EXCEPTION a THEN b ; END $$
DO $$ BEGIN SELECT 1 ; EXCEPTION WHEN a THEN b ; $$
DO $$ BEGIN SELECT 1 ; EXCEPTION WHEN a THEN b ; END
DO $$ BEGIN SELECT 1 ; END
DO $$ BEGIN SELECT 1 ; $$
DO BEGIN SELECT 1 ; END $$
SELECT a FROM t FOR
SELECT a FROM t LIMIT
SELECT a FROM t AS
SELECT a . FROM t
SELECT . a FROM t
SIGNAL '45000'
SIGNAL SQLSTATE
START
CREATE FUNCTION f ( a INT ) RETURN 1
CREATE FUNCTION f a INT RETURNS INT RETURN 1
CREATE TRIGGER tr INSERT ON t FOR EACH ROW SET a = 1
CREATE TRIGGER tr BEFORE ON t FOR EACH ROW SET a = 1
CREATE TRIGGER tr BEFORE INSERT t FOR EACH ROW SET a = 1
CREATE TRIGGER tr BEFORE INSERT ON t SET a = 1
CREATE TYPE n AS ENUM ( )
CREATE TYPE n ( 'a' )
WITH x ( SELECT 1 ) SELECT a
WITH x AS SELECT 1 SELECT a
INSERT INTO t ( a ) VALUES ( 1 ) ON CONFLICT DO
INSERT INTO t ( a ) VALUES ( 1 ) ON CONFLICT NOTHING
CREATE TABLE t ( a ENUM ( ) )
CREATE TABLE t ( a INT ( ) )
CREATE TABLE t ( a INT ( 5 , 6 ) )
CREATE TABLE t ( a INT NOT )
CREATE TABLE t ( a INT DEFAULT )
CREATE TABLE t ( a INT COMMENT x )
ALTER TABLE t ADD INDEX i
ALTER TABLE t ADD FOREIGN KEY ( a )
ALTER TABLE t DROP a
ALTER TABLE t ADD COLUMN a
ALTER TABLE t MODIFY a
SELECT a FROM t ORDER BY
SELECT a FROM t GROUP BY
SELECT a FROM t WHERE
SELECT a FROM t LIMIT 1 ,
SELECT a FROM t LIMIT 1 OFFSET
SELECT a FROM t JOIN u USING
SELECT a FROM t LEFT u
SELECT a FROM t INNER u
SELECT a FROM ( t
SELECT a FROM ( SELECT 1
SELECT CASE
SELECT CASE WHEN a THEN
SELECT CASE a WHEN 1 THEN 2
SELECT CAST( a AS INT
SELECT f ( a
SELECT a IN ( 1 , )
SELECT a IN ( 1
SELECT NOT
SELECT -
SELECT ( )
SELECT a AS
SELECT a LIKE
SELECT a NOT LIKE
SELECT a NOT IN
SELECT EXISTS
SELECT a AND
SELECT OR a
SELECT a OR OR b
INSERT INTO t
INSERT INTO t VALUES
INSERT INTO t VALUES (
INSERT INTO t VALUES ( 1 ,
INSERT INTO t VALUES ( 1 ) ,
INSERT INTO t SET
INSERT INTO t SET a
INSERT INTO t SET a =
INSERT INTO
INSERT
UPDATE
UPDATE t
UPDATE t SET a =
UPDATE t SET a = 1 ,
UPDATE t SET a = 1 WHERE
DELETE
DELETE FROM t WHERE
DELETE FROM t USING
DELETE a , FROM t
CREATE
CREATE TABLE
CREATE TABLE t (
CREATE TABLE t ( a INT
CREATE TABLE t ( a INT ,
CREATE TABLE IF NOT t ( a INT )
CREATE TABLE t ( a INT ) ENGINE
CREATE TABLE t ( a INT ) ENGINE =
CREATE TABLE t ( a INT ) COMMENT x
CREATE OR TABLE t ( a INT )
CREATE VIEW v AS
CREATE VIEW v
CREATE INDEX i ON t ( )
CREATE INDEX i ON t ( a
CREATE INDEX i ON t ( a , )
CREATE TRIGGER tr BEFORE INSERT ON t FOR ROW SET a = 1
CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW
CREATE FUNCTION f ( a ) RETURNS INT RETURN 1
CREATE FUNCTION f ( a INT ) RETURNS RETURN 1
ALTER
ALTER TABLE
ALTER TABLE t ADD COLUMN
ALTER TABLE t ADD
ALTER TABLE t DROP COLUMN
ALTER TABLE t ADD COLUMN a INT ,
ALTER TABLE t ALTER COLUMN a
ALTER TABLE t ALTER COLUMN a SET
ALTER TABLE t ADD FOREIGN KEY ( a ) REFERENCES u
ALTER TABLE t ADD FOREIGN KEY a REFERENCES u ( b )
ALTER TABLE t ADD FOREIGN KEY ( a ) REFERENCES u ( b ) ON
ALTER TABLE t ADD FOREIGN KEY ( a ) REFERENCES u ( b ) ON DELETE
ALTER TABLE t OWNER x
DROP VIEW
DROP DATABASE
DROP INDEX
DROP TABLE a ,
DROP TABLE IF EXISTS
RENAME TABLE
RENAME TABLE a TO
RENAME TABLE a TO b ,
TRUNCATE TABLE
SET
SET a = 1 ,
SIGNAL
SIGNAL SQLSTATE '45000' SET
SIGNAL SQLSTATE '45000' SET MESSAGE_TEXT
SIGNAL SQLSTATE '45000' SET MESSAGE_TEXT =
IF a THEN SET b = 1 ; END
IF a SET b = 1 ; END IF
CASE a THEN SET b = 1 ; END CASE
CASE a WHEN 1 SET b = 1 ; END CASE
WITH x AS ( SELECT 1 )
WITH x AS
WITH
CREATE TYPE n AS ENUM
CREATE TYPE n AS
CREATE TYPE n AS ENUM ( 'a' , )
UPDATE t SET a = 1 RETURNING
DELETE FROM t RETURNING
INSERT INTO t VALUES ( 1 ) RETURNING
INSERT INTO t ( a ) VALUES ( 1 ) ON
INSERT INTO t ( a ) VALUES ( 1 ) ON DUPLICATE UPDATE a = 1
INSERT INTO t ( a ) VALUES ( 1 ) ON DUPLICATE KEY UPDATE
INSERT INTO t ( a ) VALUES ( 1 ) ON DUPLICATE KEY a = 1
COPY t FROM
SELECT a FROM t FOR UPDATE SKIP
SELECT a FROM t USE INDEX
SELECT a FROM t USE ( i )
SELECT a FROM t FORCE INDEX ( )
SELECT @@GLOBAL
SELECT @@GLOBAL .
SELECT a + INTERVAL
SELECT a + INTERVAL 1
SELECT TIMESTAMPADD( DAY )
SELECT TIMESTAMPDIFF( DAY , a )
SELECT EXTRACT( DAY FROM )
SELECT COUNT ( DISTINCT )
SELECT RANK ( ) OVER
SELECT RANK ( ) OVER ( ORDER a )
DO
START a
RETURN
SELECT a UNION ALL
SELECT a UNION ( SELECT b
( SELECT a
( SELECT a ) UNION
CREATE TABLE t ( a NUMERIC ( 5 )
CREATE TABLE t ( a INT PRIMARY )
CREATE TABLE t ( a INT CHARACTER utf8 )
CREATE TABLE t ( CONSTRAINT FOREIGN KEY ( a ) REFERENCES u ( b ) )
CREATE TABLE t ( CONSTRAINT n FOREIGN KEY ( a ) u ( b ) )
CREATE TABLE t ( a INT GENERATED AS ( 1 ) )
CREATE TABLE t ( a ENUM ( x ) )
CREATE TABLE t ( a ENUM ( 'x' 5 ) )
CREATE TABLE t ( a ENUM 'x' )
CREATE TABLE t ( a VARCHAR ( x ) )
CREATE TABLE t ( 5 INT )
CREATE TABLE t ( a INT b INT )
""".strip().split('\n')


def lines():
    for l in CORPUS.split('\n'):
        if not l.strip():
            continue
        head, text = l.split(' | ', 1)
        d, a, f = head.split()
        yield d, a, f, text


def groups(text):
    """[ [alternatives] ] - a fixed piece has one alternative"""
    out = []
    rest = text
    while '<<' in rest:
        i = rest.index('<<')
        # a shift operator stands between blanks
        if rest[i + 2:i + 3] == ' ':
            j = rest.find('<<', i + 2)
            out.append([rest[:i + 2]])
            rest = rest[i + 2:]
            continue
        if rest[:i].strip():
            out.append([rest[:i].strip()])
        j = rest.index('>>', i)
        alts = [x.strip() for x in rest[i + 2:j].split('~')]
        if len(alts) == 1:
            alts.append('')
        out.append(alts)
        rest = rest[j + 2:]
    if rest.strip():
        out.append([rest.strip()])
    return out


def variants(text):
    g = groups(text)
    n = max(len(x) for x in g)
    for v in range(n):
        yield ' '.join(x[v % len(x)] for x in g if x[v % len(x)])


if __name__ == '__main__':
    for d, a, f, t in lines():
        for v in variants(t):
            print(d, a, f, v)
